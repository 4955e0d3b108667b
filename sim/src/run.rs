//! Running simulations: one seed is one run; search over seeds, minimisation, replay files.
use crate::{entry::*, gen::*, rng::*, world::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub scenario: String,
    pub oracle: String,
    pub message: String,
    pub mask: Vec<String>,
    pub cfg: Cfg,
    pub acts: Vec<Act>,
}

pub struct RunOut {
    pub cfg: Cfg,
    pub scen: Scen,
    pub acts: Vec<Act>,
    pub viol: Option<Violation>,
    pub stats: Stats,
    pub states: Vec<u64>,
    pub decided: usize,
    pub digest: u64,
}

pub fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(base ^ 0x51ED_2701);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx)
}

fn digest<T: SimEntry>(w: &World<T>, acts: &[Act]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{acts:?}").hash(&mut h);
    if let Some(s) = &w.states {
        s.hash(&mut h);
    }
    for c in &w.cl {
        format!("{:?}", c.refl).hash(&mut h);
    }
    h.finish()
}

fn one<T: SimEntry>(prof: &Prof, scen: Scen, cfg: Cfg, rng: Rng) -> RunOut {
    let mut mask = prof.oracles.clone();
    mask.extend(["panic", "flood"]);
    match World::<T>::new(cfg.clone(), mask) {
        Err(v) => RunOut { cfg, scen, acts: vec![], viol: Some(v), stats: Stats::default(), states: vec![], decided: 0, digest: 0 },
        Ok(mut w) => {
            w.states = Some(vec![]);
            let mut g = Gen::new(w, rng, prof, scen);
            let viol = g.run(scen).err();
            let decided = g.w.cl.iter().map(|c| c.refl.len()).sum();
            let digest = digest(&g.w, &g.acts);
            g.w.harvest();
            RunOut { cfg, scen, acts: std::mem::take(&mut g.acts), viol, stats: g.w.stats.clone(), states: g.w.states.take().unwrap(), decided, digest }
        }
    }
}

pub fn kinds() -> (&'static str, &'static str) {
    (SnapE::KIND, PlainE::KIND)
}

pub fn run_one(prof: &Prof, seed: u64) -> RunOut {
    let mut rng = Rng::new(seed);
    let tot: u64 = prof.scen.iter().map(|x| x.0).sum();
    let mut x = rng.below(tot);
    let mut scen = prof.scen[0].1;
    for (w, s) in prof.scen {
        if x < *w {
            scen = *s;
            break;
        }
        x -= w;
    }
    let snap = rng.chance(prof.snap_pct, 100);
    let kind = if snap { kinds().0 } else { kinds().1 };
    let cfg = gen_cfg(&mut rng, prof, kind);
    if snap {
        one::<SnapE>(prof, scen, cfg, rng)
    } else {
        one::<PlainE>(prof, scen, cfg, rng)
    }
}

fn replay_t<T: SimEntry>(cfg: &Cfg, acts: &[Act], mask: &[&'static str], trace: bool) -> (Option<(usize, Violation)>, Vec<String>) {
    let mut w = match World::<T>::new(cfg.clone(), mask.to_vec()) {
        Ok(w) => w,
        Err(v) => return (Some((0, v)), vec![]),
    };
    if trace {
        w.trace = Some(vec![]);
    }
    for (k, a) in acts.iter().enumerate() {
        if let Err(v) = w.exec(a) {
            return (Some((k, v)), w.trace.take().unwrap_or_default());
        }
    }
    (None, w.trace.take().unwrap_or_default())
}
pub fn replay(cfg: &Cfg, acts: &[Act], mask: &[&'static str], trace: bool) -> (Option<(usize, Violation)>, Vec<String>) {
    if cfg.kind == SnapE::KIND {
        replay_t::<SnapE>(cfg, acts, mask, trace)
    } else {
        replay_t::<PlainE>(cfg, acts, mask, trace)
    }
}

/// shrinks (cfg, acts) while the same oracle fails
pub fn minimise(cfg: &Cfg, acts: &[Act], mask: &[&'static str], oracle: &str, budget: Duration) -> (Cfg, Vec<Act>, Violation) {
    let end = Instant::now() + budget;
    let fails = |cfg: &Cfg, a: &[Act]| -> Option<(usize, Violation)> { replay(cfg, a, mask, false).0.filter(|v| v.1.oracle == oracle) };
    let mut cfg = cfg.clone();
    let mut acts = acts.to_vec();
    let Some((k, mut best)) = fails(&cfg, &acts) else {
        return (cfg, acts, Violation { oracle: "replay", msg: "violation does not replay".into() });
    };
    acts.truncate(k + 1);
    loop {
        let before = acts.len();
        let barrier = |a: &[Act]| a.iter().position(|x| *x == Act::Barrier).unwrap_or(a.len());
        let mut chunk = (barrier(&acts) / 2).max(1);
        loop {
            let mut i = 0;
            while i < barrier(&acts) {
                if Instant::now() > end {
                    return (cfg, acts, best);
                }
                let hi = (i + chunk).min(barrier(&acts));
                let mut cand = acts.clone();
                cand.drain(i..hi);
                if let Some((k, v)) = fails(&cfg, &cand) {
                    cand.truncate(k + 1);
                    acts = cand;
                    best = v;
                } else {
                    i = hi;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simpler configuration
        let mut cands = vec![];
        let mut c = cfg.clone();
        c.serde = false;
        cands.push(c.clone());
        c.nodes.iter_mut().for_each(|n| n.batch = 1);
        cands.push(c.clone());
        let mut c = cfg.clone();
        c.nodes.iter_mut().for_each(|n| n.prio = 0);
        cands.push(c);
        let mut c = cfg.clone();
        c.fq = None;
        cands.push(c);
        for c in cands {
            if c != cfg {
                if let Some((k, v)) = fails(&c, &acts) {
                    cfg = c;
                    acts.truncate(k + 1);
                    best = v;
                }
            }
        }
        if acts.len() == before || Instant::now() > end {
            return (cfg, acts, best);
        }
    }
}

pub struct Found {
    pub idx: u64,
    pub seed: u64,
    pub out: RunOut,
}
#[derive(Default)]
pub struct Search {
    pub runs: u64,
    pub stats: Stats,
    pub states: HashSet<u64>,
    pub digests: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub decided: u64,
    pub found: Option<Found>,
    pub known: Vec<(String, u64, String)>,
    pub samples: Vec<serde_json::Value>,
    pub capped: bool,
}

/// `known` says whether a violation is a listed finding
pub fn search(prof: &Prof, base: u64, runs: u64, cap: Duration, workers: usize, known: &(dyn Fn(&Violation) -> Option<String> + Sync)) -> Search {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let acc = Mutex::new(Search::default());
    let busy: Vec<(AtomicU64, Mutex<Option<Instant>>)> = (0..workers).map(|_| (AtomicU64::new(0), Mutex::new(None))).collect();
    let t0 = Instant::now();
    let done = AtomicU64::new(0);
    let hung = AtomicU64::new(u64::MAX);
    std::thread::scope(|s| {
        for k in 0..workers {
            let (next, best, acc, busy, done, hung) = (&next, &best, &acc, &busy, &done, &hung);
            let prof = prof.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Search::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= runs || idx > best.load(Ordering::SeqCst) || hung.load(Ordering::SeqCst) != u64::MAX {
                            break;
                        }
                        if t0.elapsed() > cap {
                            local.capped = true;
                            break;
                        }
                        let seed = run_seed(base, prof.id, idx);
                        busy[k].0.store(idx, Ordering::SeqCst);
                        *busy[k].1.lock().unwrap() = Some(Instant::now());
                        let out = run_one(&prof, seed);
                        *busy[k].1.lock().unwrap() = None;
                        local.runs += 1;
                        local.stats.merge(&out.stats);
                        local.decided += out.decided as u64;
                        if local.states.len() < 4_000_000 {
                            local.states.extend(out.states.iter().copied());
                        }
                        local.digests.insert(out.digest);
                        let nf: u64 = out.stats.faults.values().sum();
                        if out.decided > 0 && (nf > 0 || out.scen == Scen::Startup) {
                            local.nontrivial.insert(out.digest);
                        }
                        if idx < 2 {
                            local.samples.push(serde_json::json!({
                                "run": idx, "seed": seed, "scenario": format!("{:?}", out.scen), "config": out.cfg,
                                "acts_total": out.acts.len(), "decided": out.decided,
                                "first_acts": out.acts.iter().take(40).map(|a| format!("{a:?}")).collect::<Vec<_>>(),
                            }));
                        }
                        if let Some(v) = &out.viol {
                            if let Some(what) = known(v) {
                                local.known.push((what, idx, v.msg.clone()));
                                continue;
                            }
                            best.fetch_min(idx, Ordering::SeqCst);
                            if local.found.as_ref().is_none_or(|f| idx < f.idx) {
                                local.found = Some(Found { idx, seed, out });
                            }
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                    let mut a = acc.lock().unwrap();
                    a.runs += local.runs;
                    a.stats.merge(&local.stats);
                    a.states.extend(local.states);
                    a.digests.extend(local.digests);
                    a.nontrivial.extend(local.nontrivial);
                    a.decided += local.decided;
                    a.known.extend(local.known);
                    a.samples.extend(local.samples);
                    a.capped |= local.capped;
                    if let Some(f) = local.found {
                        if a.found.as_ref().is_none_or(|g| f.idx < g.idx) {
                            a.found = Some(f);
                        }
                    }
                })
                .unwrap();
        }
        // watchdog: a run that never ends is a violation too
        let (busy, done, hung) = (&busy, &done, &hung);
        s.spawn(move || loop {
            if done.load(Ordering::SeqCst) == workers as u64 {
                return;
            }
            std::thread::sleep(Duration::from_millis(50));
            for b in busy {
                let t = *b.1.lock().unwrap();
                if t.is_some_and(|t| t.elapsed() > Duration::from_secs(150)) {
                    let idx = b.0.load(Ordering::SeqCst);
                    hung.store(idx, Ordering::SeqCst);
                    crate::report_hang(prof, base, idx);
                }
            }
        });
    });
    let mut r = acc.into_inner().unwrap();
    r.known.sort_by_key(|x| x.1);
    r
}
