mod disk;
mod entry;
mod gen;
mod profiles;
mod rng;
#[cfg(feature = "rocks")]
mod rocks;
mod run;
#[cfg(feature = "rocks")]
mod store;
#[cfg(feature = "toml")]
mod tomlcfg;
mod world;

use gen::*;
use run::*;
use serde::Deserialize;
use serde_json::json;
use std::{
    path::PathBuf,
    time::{Duration, Instant},
};
use world::*;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}
fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn replay_path(id: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{id}.json"))
}

#[derive(Deserialize, Clone, Debug)]
struct Known {
    property: String,
    status: String,
    #[serde(default)]
    oracle: String,
    #[serde(default)]
    needle: String,
    what: String,
    /// committed history that fails, relative to the file
    #[serde(default)]
    replay: String,
}
fn known_findings(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.property == id && k.status == "known")
        .collect()
}

pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn report_hang(prof: &Prof, base: u64, idx: u64) -> ! {
    let p = replay_path(prof.id);
    let j = json!({"property": prof.id, "seed": base, "run": idx, "oracle": "hang", "message": "a simulated run did not terminate within 150 s", "mode": "seed"});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    println!("run {idx} of seed {base} does not terminate");
    println!("VIOLATION property={} replay={}", prof.id, p.display());
    std::process::exit(1);
}

fn write_evidence(id: &str, tier: &str, seed: u64, wall: f64, viol: u64, mut cov: serde_json::Value, assumptions: Vec<&str>) {
    cov["runs_per_hour"] = json!((cov["evaluations"].as_u64().unwrap_or(0) as f64 / wall.max(0.001) * 3600.0) as u64);
    let j = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": viol});
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&j).unwrap()).expect("cannot write evidence");
}

#[cfg(feature = "rocks")]
/// storage sequences; Ok carries the coverage
fn store_part(id: &str, tier: &str, t0: Instant) -> Result<serde_json::Value, i32> {
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = tier == "thorough";
    let runs = env_u64("SIM_STORE_RUNS", if id == "C16" { 1600 } else { 2400 } * if thorough { 40 } else { 1 });
    let cap = Duration::from_secs(env_u64("SIM_CAP_S", if thorough { 7200 } else { 300 }));
    println!("check {id} tier={tier} VERIF_SEED={seed} storage runs={runs}");
    let mut o = store::explore(id, seed, runs, cap);
    o.cov["components_real"] = json!(["PersistentStorage + RocksDB (write-ahead log, recovery)", "MemoryStorage", "OmniPaxos start-up on a recovered storage"]);
    o.cov["components_stub"] = json!(["client of the storage (seeded operation sequences)", "process kill (files copied from under the open database)", "disk (tmpfs, write-ahead log tails cut or torn by the simulator, file size limit as full disk)"]);
    match o.viol {
        None => {
            println!("{id}: {} storage runs, no violation, {:.1} s", o.runs, t0.elapsed().as_secs_f64());
            Ok(o.cov)
        }
        Some(j) => {
            let p = replay_path(id);
            std::fs::write(&p, serde_json::to_string(&j).unwrap()).expect("cannot write replay");
            confirm(&p);
            write_evidence(id, tier, seed, t0.elapsed().as_secs_f64(), 1, o.cov, vec!["RocksDB itself is trusted to replay its write-ahead log in order"]);
            println!("VIOLATION property={id} replay={}", p.display());
            Err(1)
        }
    }
}
#[cfg(feature = "rocks")]
fn store_check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    match store_part(id, tier, t0) {
        Err(c) => c,
        Ok(cov) => {
            write_evidence(id, tier, env_u64("VERIF_SEED", 1), t0.elapsed().as_secs_f64(), 0, cov, vec!["RocksDB itself is trusted to replay its write-ahead log in order", "a killed process loses nothing it gave to the operating system; lost or torn tails model a machine crash before write-back"]);
            0
        }
    }
}

/// a fresh process must reproduce it
fn confirm(p: &std::path::Path) {
    let exe = std::env::current_exe().unwrap();
    match std::process::Command::new(exe).arg("replay").arg(p).output() {
        Ok(o) if o.status.code() == Some(1) => println!("replayed in a fresh process: same violation"),
        _ => println!("warning: the replay did not reproduce in a fresh process"),
    }
}

fn check(id: &str, tier: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let Some(prof) = profiles::get(id) else {
        eprintln!("no such property {id}");
        return 2;
    };
    let t0 = Instant::now();
    #[cfg(feature = "rocks")]
    let store_cov = if id == "C17" {
        match store_part(id, tier, t0) {
            Err(c) => return c,
            Ok(c) => Some(c),
        }
    } else {
        None
    };
    let thorough = tier == "thorough";
    let runs = env_u64("SIM_RUNS", if thorough { prof.runs * 25 } else { prof.runs });
    let cap = Duration::from_secs(env_u64("SIM_CAP_S", if thorough { 7200 } else { 420 }));
    let workers = env_u64("SIM_WORKERS", 8) as usize;
    println!("check {id} tier={tier} VERIF_SEED={seed} runs={runs}");
    let known = known_findings(id);
    for k in &known {
        let p = verif_dir().join(&k.replay);
        let still = std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str::<Replay>(&s).ok()).and_then(|r| {
            let mask: Vec<&'static str> = r.mask.iter().map(|s| leak(s)).collect();
            replay(&r.cfg, &r.acts, &mask, false).0
        });
        match still {
            Some((_, v)) if v.oracle == k.oracle => println!("KNOWN-FINDING: property={id} {} ({})", k.what, v.msg),
            _ => println!("note: listed finding no longer reproduces: {}", k.what),
        }
    }
    let is_known = |v: &Violation| known.iter().find(|k| v.oracle == k.oracle && v.msg.contains(&k.needle)).map(|k| k.what.clone());
    let s = search(&prof, seed, runs, cap, workers, &is_known);
    let mut samples = s.samples.clone();
    samples.sort_by_key(|x| x["run"].as_u64());
    #[allow(unused_mut)]
    let mut cov = json!({
        "evaluations": s.runs,
        "distinct_nontrivial": s.nontrivial.len(),
        "rule": "one evaluation is one simulated run drawn from one seed; distinct by digest of the whole act list and every state after every act; non-trivial if at least one entry was decided and at least one fault fired (start-up runs: at least one entry decided)",
        "samples": samples,
        "simulated_ticks": s.stats.ticks,
        "simulated_seconds_at_10ms_per_tick": s.stats.ticks as f64 / 100.0 / 4.0,
        "acts_executed": s.stats.acts,
        "entries_decided": s.decided,
        "faults_injected": s.stats.faults,
        "probes": s.stats.probes,
        "distinct_states": s.states.len(),
        "distinct_states_measure": "hash of per-server (up, decided, compacted, stored length, promise rank, reported leader) plus link status and queue lengths, after every act",
        "distinct_interleavings": s.digests.len(),
        "oracles": prof.oracles,
        "scenarios": prof.scen.iter().map(|x| format!("{:?}:{}", x.1, x.0)).collect::<Vec<_>>(),
        "known_finding_hits": s.known.len(),
        "stopped_by_time_cap": s.capped,
        "components_real": profiles::real_components(id),
        "components_stub": ["network (links with FIFO queues owned by the simulator)", "clock (tick() called by the scheduler)", "clients", "process lifecycle"],
    });
    #[cfg(feature = "rocks")]
    if let Some(c) = store_cov {
        cov["evaluations"] = json!(s.runs + c["evaluations"].as_u64().unwrap());
        cov["distinct_nontrivial"] = json!(s.nontrivial.len() as u64 + c["distinct_nontrivial"].as_u64().unwrap());
        cov["storage_sequences"] = c;
    }
    let assume = vec![
        "servers are non-Byzantine; a crash loses memory, keeps what the storage trait was given",
        "clock: one tick() call per server per simulated tick in calm phases, arbitrary relative speed in fault phases",
        "bounds are those of the generator: 2 to 7 servers, up to a few hundred scheduler acts and some tens of entries per run",
    ];
    match s.found {
        None => {
            write_evidence(id, tier, seed, t0.elapsed().as_secs_f64(), 0, cov, assume);
            println!("{id}: {} runs, {} decided entries, {} distinct states, no violation, {:.1} s", s.runs, s.decided, s.states.len(), t0.elapsed().as_secs_f64());
            0
        }
        Some(f) => {
            let v = f.out.viol.clone().unwrap();
            println!("run {} (seed {}): {}: {}", f.idx, f.seed, v.oracle, v.msg);
            let mut mask = prof.oracles.clone();
            mask.extend(["panic", "flood"]);
            let (cfg, acts, v2) = minimise(&f.out.cfg, &f.out.acts, &mask, v.oracle, Duration::from_secs(env_u64("SIM_MIN_S", 40)));
            let r = Replay {
                property: id.into(),
                seed,
                run: f.idx,
                scenario: format!("{:?}", f.out.scen),
                oracle: v2.oracle.into(),
                message: v2.msg.clone(),
                mask: mask.iter().map(|s| s.to_string()).collect(),
                cfg,
                acts,
            };
            let p = replay_path(id);
            std::fs::write(&p, serde_json::to_string(&r).unwrap()).expect("cannot write replay");
            println!("minimised to {} acts: {}: {}", r.acts.len(), r.oracle, r.message);
            confirm(&p);
            write_evidence(id, tier, seed, t0.elapsed().as_secs_f64(), 1, cov, assume);
            println!("VIOLATION property={id} replay={}", p.display());
            1
        }
    }
}

fn do_replay(path: &str, trace: bool) -> i32 {
    let s = std::fs::read_to_string(path).expect("cannot read replay file");
    let j: serde_json::Value = serde_json::from_str(&s).expect("bad replay file");
    #[cfg(feature = "rocks")]
    if j["mode"] == "store" {
        return store::do_replay(&j);
    }
    if j["mode"] == "seed" {
        let prof = profiles::get(j["property"].as_str().unwrap()).unwrap();
        let out = run_one(&prof, run_seed(j["seed"].as_u64().unwrap(), prof.id, j["run"].as_u64().unwrap()));
        println!("{:?}", out.viol);
        return out.viol.is_some() as i32;
    }
    let r: Replay = serde_json::from_value(j).expect("bad replay file");
    let mask: Vec<&'static str> = r.mask.iter().map(|s| leak(s)).collect();
    let (v, t) = replay(&r.cfg, &r.acts, &mask, trace);
    for l in t {
        println!("{l}");
    }
    match v {
        Some((k, v)) => {
            println!("act {k}: {}: {}", v.oracle, v.msg);
            if v.oracle == r.oracle && v.msg == r.message {
                println!("reproduced exactly");
                1
            } else {
                println!("a different violation: file has {}: {}", r.oracle, r.message);
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// runs the same seeds again and compares everything
fn determinism(id: &str, n: u64) -> i32 {
    let prof = profiles::get(id).unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    for idx in 0..n {
        let o = run_one(&prof, run_seed(seed, id, idx));
        println!("{id} {idx} {:016x} {} {:?}", o.digest, o.acts.len(), o.viol.map(|v| v.oracle));
    }
    0
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(3).cloned().unwrap_or("quick".into());
            #[cfg(feature = "rocks")]
            let r = if store::owns(&a[2]) { store_check(&a[2], &tier) } else { check(&a[2], &tier) };
            #[cfg(not(feature = "rocks"))]
            let r = check(&a[2], &tier);
            r
        }
        #[cfg(feature = "rocks")]
        Some("store-worker") => {
            let n: Vec<u64> = a[3..8].iter().map(|x| x.parse().unwrap()).collect();
            store::worker(&a[2], n[0], n[1], n[2], n[3], Duration::from_secs(n[4]));
            0
        }
        Some("replay") => do_replay(&a[2], a.get(3).is_some()),
        Some("determinism") => determinism(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: simcheck check <id> quick|thorough | replay <file> [trace] | determinism <id> <n>");
            2
        }
    };
    std::process::exit(code);
}
