//! Seeded generation of runs: configuration, workload, schedule and faults.
use crate::{disk::FaultKind, entry::SimEntry, rng::Rng, world::*};

/// What a property check explores.
#[derive(Clone, Debug)]
pub struct Prof {
    pub id: &'static str,
    pub oracles: Vec<&'static str>,
    pub scen: &'static [(u64, Scen)],
    pub sizes: &'static [usize],
    pub snap_pct: u64,
    pub fq_pct: u64,
    pub nets: &'static [Net],
    pub batch_pct: u64,
    pub gap_pct: u64,
    pub rocks: bool,
    /// runs of the quick tier
    pub runs: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scen {
    /// phases of faults and calm, then a fault-free suffix with convergence check
    Mixed,
    /// as Mixed, with many crashes placed inside storage writes
    CrashHeavy,
    /// as Mixed with stop-signs, then the next configuration is started
    Reconf,
    /// partial partitions with a quorum-connected server
    Partial,
    /// healthy windows after a fault prefix
    Windows,
    /// exactly a quorum stays alive
    Quorums,
    /// no faults; proposals before any leader; priorities
    Startup,
    /// lagging servers, compaction, leader changes
    Lag,
    /// silent loss, concentrated on single message kinds
    Loss,
}

pub struct Gen<'a, T: SimEntry> {
    pub w: World<T>,
    pub rng: Rng,
    pub acts: Vec<Act>,
    pub prof: &'a Prof,
    sw: Swarm,
}
#[derive(Clone, Debug, Default)]
struct Swarm {
    tick: u64,
    flush: u64,
    del: u64,
    drop: u64,
    dup: u64,
    reord: u64,
    cut: u64,
    heal: u64,
    crash: u64,
    arm: u64,
    append: u64,
    reconf: u64,
    compact: u64,
    tbl: u64,
    prio: u64,
    read: u64,
    round: u64,
    stall: u64,
    max_down: usize,
    lag_recon: bool,
}
type R = Result<(), Violation>;

pub fn gen_cfg(rng: &mut Rng, p: &Prof, kind: &str) -> Cfg {
    let n = if p.sizes.len() > 1 && rng.chance(1, 60) { 8 } else { *rng.pick(p.sizes) };
    let pids: Vec<u64> = if rng.chance(p.gap_pct, 100) {
        let top = if rng.chance(1, 4) { 700 } else { 12 };
        let mut v: Vec<u64> = (1..=top).collect();
        rng.shuffle(&mut v);
        v.truncate(n);
        v
    } else {
        (1..=n as u64).collect()
    };
    let uniform = rng.chance(1, 2);
    let batching = rng.chance(p.batch_pct, 100);
    let mk = |rng: &mut Rng, pid: u64| {
        let mut nc = NodeCfg {
            pid,
            batch: if batching { *rng.pick(&[1, 2, 2, 2, 3, 3, 5, 20, 60]) } else { 1 },
            el: *rng.pick(&[1, 1, 2, 3, 5]),
            rs: rng.range(3, 20),
            fl: rng.range(1, 15),
            buf: *rng.pick(&[1, 8, 100]),
            prio: *rng.pick(&[0, 0, 0, 1, 2, 5]),
        };
        // settings that make no sense are used if the library's own validation lets them through
        let odd = match rng.below(60) {
            0 => NodeCfg { fl: 0, ..nc.clone() },
            1 => NodeCfg { batch: 0, ..nc.clone() },
            2 => NodeCfg { el: 0, ..nc.clone() },
            3 => NodeCfg { rs: 0, ..nc.clone() },
            4 => NodeCfg { buf: 0, ..nc.clone() },
            _ => nc.clone(),
        };
        if (NodeCfg { pid: 1, ..odd.clone() }).server_config().validate().is_ok() {
            nc = odd;
        }
        nc
    };
    let base = mk(rng, 0);
    let nodes: Vec<NodeCfg> = pids
        .iter()
        .map(|p| {
            let mut c = mk(rng, *p);
            if uniform {
                c = NodeCfg { pid: *p, prio: c.prio, ..base.clone() };
            }
            c
        })
        .collect();
    let mut cfg = Cfg {
        kind: kind.to_string(),
        cid: rng.range(1, 3) as u32,
        nodes,
        fq: None,
        net: *rng.pick(p.nets),
        serde: rng.chance(1, 3),
        rocks: p.rocks,
        join: base,
        toml: if p.id == "C22" { rng.next() | 1 } else { 0 },
    };
    if rng.chance(p.fq_pct, 100) {
        // any sizes the library's own validation lets through
        for _ in 0..20 {
            cfg.fq = Some((rng.below(n as u64 + 2) as usize, rng.below(n as u64 + 2) as usize));
            if cfg.cluster_config().validate().is_ok() {
                break;
            }
            cfg.fq = None;
        }
    }
    cfg
}

impl<'a, T: SimEntry> Gen<'a, T> {
    pub fn new(w: World<T>, mut rng: Rng, prof: &'a Prof, scen: Scen) -> Self {
        let net = w.cl[0].cfg.net;
        let r = &mut rng;
        let some = |r: &mut Rng, pct: u64, lo: u64, hi: u64| if r.chance(pct, 100) { r.range(lo, hi) } else { 0 };
        let crashy = scen == Scen::CrashHeavy;
        let sw = Swarm {
            tick: r.range(3, 20),
            flush: r.range(8, 40),
            del: r.range(20, 80),
            drop: if net == Net::Session { 0 } else { some(r, 80, 1, 12) },
            dup: if net == Net::Chaos { some(r, 70, 1, 6) } else { 0 },
            reord: if net == Net::Chaos { some(r, 70, 1, 20) } else { 0 },
            cut: some(r, 65, 1, 5),
            heal: r.range(1, 6),
            crash: some(r, if crashy { 50 } else { 45 }, 1, 3),
            arm: some(r, if crashy { 100 } else { 35 }, 1, if crashy { 8 } else { 3 }),
            append: r.range(2, 15),
            reconf: if scen == Scen::Reconf { some(r, 50, 1, 2) } else if scen == Scen::Mixed || crashy { some(r, 12, 1, 1) } else { 0 },
            compact: some(r, 60, 1, 4),
            tbl: some(r, 40, 1, 3),
            prio: some(r, 15, 1, 1),
            read: if prof.id == "C12" { 12 } else { 0 },
            round: r.range(0, 6),
            stall: some(r, 40, 1, 3),
            max_down: 1 + r.idx(w.cl[0].n()),
            lag_recon: r.chance(1, 4),
        };
        Gen { w, rng, acts: vec![], prof, sw }
    }
    fn go(&mut self, a: Act) -> R {
        self.acts.push(a.clone());
        self.w.exec(&a)
    }
    fn n(&self) -> usize {
        self.w.cl[self.w.cur].n()
    }
    fn c(&self) -> &Cluster<T> {
        &self.w.cl[self.w.cur]
    }
    fn cfg(&self) -> &Cfg {
        &self.c().cfg
    }
    fn node(&mut self) -> usize {
        let n = self.n();
        self.rng.idx(n)
    }
    fn live(&mut self) -> usize {
        let v: Vec<usize> = (0..self.n()).filter(|i| self.c().alive(*i)).collect();
        if v.is_empty() {
            return self.node();
        }
        *self.rng.pick(&v)
    }
    fn lead(&mut self) -> usize {
        match self.c().leader() {
            Some(l) => l,
            None => self.live(),
        }
    }
    fn other(&mut self, x: usize) -> usize {
        let n = self.n();
        (x + 1 + self.rng.idx(n - 1)) % n
    }
    fn rounds(&mut self, k: u64) -> R {
        for _ in 0..k {
            let s = self.rng.below(1 << 32);
            self.go(Act::Round(s, 8))?;
        }
        Ok(())
    }
    fn elect(&mut self) -> R {
        let k = 4 * self.cfg().el() + 3;
        self.rounds(k)
    }
    fn settle_rounds(&self) -> u64 {
        14 * self.cfg().el() + 4 * self.cfg().rs() + self.cfg().fl() + 20
    }
    fn probe_rounds(&self) -> u64 {
        8 * self.cfg().el() + 4 * self.cfg().rs() + 3 * self.cfg().fl() + 15
    }
    fn win_rounds(&self) -> u64 {
        // leader batch + follower batch + messages
        2 * self.cfg().fl() + 4
    }

    // ------------------------------------------------------------ phases
    fn chaos(&mut self, steps: u64) -> R {
        for _ in 0..steps {
            self.step()?;
        }
        Ok(())
    }
    fn step(&mut self) -> R {
        let s = self.sw.clone();
        let n = self.n();
        let down = n - self.c().n_alive();
        let cuts = (0..n * n).filter(|l| l / n < l % n && !self.c().up[*l]).count() as u64;
        let restart = if down == 0 { 0 } else { 1 + 3 * down as u64 };
        let heal = if cuts == 0 { 0 } else { s.heal + cuts };
        let recon = if s.lag_recon { 3 } else { 1000 };
        let pend: Vec<usize> = (0..n * n).filter(|l| self.c().recon[*l] && self.c().alive(l / n)).collect();
        let crash = if down < s.max_down { s.crash } else { 0 };
        let arm = if down < s.max_down { s.arm } else { 0 };
        let w = [s.tick, s.flush, s.del, s.drop, s.dup, s.reord, s.cut, heal, crash, arm, s.append, s.reconf, s.compact, s.tbl, s.prio, s.read, s.round, restart, if pend.is_empty() { 0 } else { recon }, s.stall];
        let tot: u64 = w.iter().sum();
        let mut x = self.rng.below(tot);
        let mut k = 0;
        while x >= w[k] {
            x -= w[k];
            k += 1;
        }
        let link = |g: &mut Self| -> Option<usize> {
            let v: Vec<usize> = (0..n * n).filter(|l| g.c().deliverable(*l)).collect();
            if v.is_empty() {
                None
            } else {
                Some(*g.rng.pick(&v))
            }
        };
        match k {
            0 => {
                let i = self.live();
                let k = if self.rng.chance(1, 10) { self.rng.range(2, 12) } else { 1 };
                for _ in 0..k {
                    self.go(Act::Tick(i))?;
                }
            }
            1 => {
                let i = self.live();
                if self.rng.chance(1, 8) {
                    self.go(Act::Take(i))?;
                } else {
                    self.go(Act::Flush(i))?;
                }
            }
            2 => {
                if let Some(l) = link(self) {
                    let len = self.c().links[l].len() as u64;
                    let k = if self.rng.chance(1, 2) { self.rng.range(1, len) } else { 1 };
                    for _ in 0..k {
                        self.go(Act::Del(l / n, l % n))?;
                    }
                } else {
                    let i = self.live();
                    self.go(Act::Flush(i))?;
                }
            }
            3 => {
                if let Some(l) = link(self) {
                    let k = self.rng.idx(self.c().links[l].len());
                    self.go(Act::Drop(l / n, l % n, k))?;
                }
            }
            4 => {
                if let Some(l) = link(self) {
                    let k = self.rng.idx(self.c().links[l].len());
                    self.go(Act::Dup(l / n, l % n, k))?;
                }
            }
            5 => {
                if let Some(l) = link(self) {
                    let k = self.rng.idx(self.c().links[l].len());
                    self.go(Act::DelK(l / n, l % n, k))?;
                }
            }
            6 => {
                let a = self.node();
                let b = self.other(a);
                let keep = self.rng.idx(4);
                if self.rng.chance(1, 4) {
                    for j in 0..n {
                        if j != a {
                            self.go(Act::Cut(a, j, keep))?;
                        }
                    }
                } else {
                    self.go(Act::Cut(a, b, keep))?;
                }
            }
            7 => {
                let v: Vec<usize> = (0..n * n).filter(|l| l / n < l % n && !self.c().up[*l]).collect();
                let l = *self.rng.pick(&v);
                self.go(Act::Heal(l / n, l % n))?;
            }
            8 => {
                let i = if self.rng.chance(1, 2) { self.lead() } else { self.live() };
                let keep = self.rng.idx(4);
                self.go(Act::Crash(i, keep))?;
            }
            9 => {
                let i = if self.rng.chance(1, 3) { self.lead() } else { self.live() };
                let k = *self.rng.pick(&[FaultKind::CrashBefore, FaultKind::CrashAfter, FaultKind::CrashBefore, FaultKind::CrashAfter, FaultKind::WriteErr, FaultKind::ReadErr]);
                let d = if self.rng.chance(1, 2) { 0 } else { self.rng.below(6) };
                self.go(Act::Arm(i, k, d))?;
            }
            10 => {
                let i = if self.rng.chance(1, 2) { self.lead() } else { self.live() };
                let k = if self.rng.chance(1, 3) { self.rng.range(2, 5) } else { 1 };
                for _ in 0..k {
                    self.go(Act::Append(i))?;
                }
            }
            11 => {
                let i = if self.rng.chance(1, 2) { self.lead() } else { self.live() };
                let s = self.rng.below(1 << 32);
                self.go(Act::Reconf(i, s))?;
            }
            12 => self.compact()?,
            13 => {
                let i = self.live();
                self.go(Act::Tbl(i))?;
            }
            14 => {
                let i = self.live();
                let p = self.rng.below(6) as u32;
                self.go(Act::Prio(i, p))?;
            }
            15 => self.reads(1)?,
            16 => {
                let s = self.rng.below(1 << 32);
                let sub = self.rng.range(1, 3) as u8;
                self.go(Act::Round(s, sub))?;
            }
            17 => {
                let v: Vec<usize> = (0..n).filter(|i| !self.c().alive(*i)).collect();
                let i = *self.rng.pick(&v);
                self.go(Act::Restart(i))?;
            }
            18 => {
                let l = *self.rng.pick(&pend);
                self.go(Act::Recon(l / n, l % n))?;
            }
            _ => {
                let a = self.node();
                let b = self.other(a);
                match self.rng.below(5) {
                    0 if self.c().paused[a] => self.go(Act::Resume(a))?,
                    0 => self.go(Act::Pause(a))?,
                    1 if self.rng.chance(1, 8) => self.go(Act::SelfRecon(a))?,
                    _ if self.c().stall[a * n + b] => self.go(Act::Unstall(a, b))?,
                    _ => self.go(Act::Stall(a, b))?,
                }
                if self.rng.chance(1, 3) {
                    self.unstall_some()?;
                }
            }
        }
        Ok(())
    }
    fn compact(&mut self) -> R {
        let i = if self.rng.chance(1, 2) { self.lead() } else { self.live() };
        let sel = if self.rng.chance(1, 2) { None } else { Some(self.rng.below(1 << 20)) };
        if T::SNAP {
            let local = self.rng.chance(1, 2);
            self.go(Act::Snap(i, sel, local))
        } else {
            self.go(Act::Trim(i, sel))
        }
    }
    fn reads(&mut self, k: u64) -> R {
        if self.prof.id != "C12" {
            return Ok(());
        }
        for _ in 0..k {
            let i = self.live();
            let (a, b, f) = (self.rng.below(1 << 20), self.rng.below(1 << 20), self.rng.below(12) as u8);
            self.go(Act::Read(i, a, b, f))?;
        }
        Ok(())
    }
    fn isolate(&mut self, i: usize, keep: usize) -> R {
        for j in 0..self.n() {
            if j != i {
                self.go(Act::Cut(i, j, keep))?;
            }
        }
        Ok(())
    }
    fn heal_node(&mut self, i: usize) -> R {
        for j in 0..self.n() {
            if j != i {
                self.go(Act::Heal(i, j))?;
            }
        }
        Ok(())
    }
    /// leader change by crash, partition or request
    fn leader_change(&mut self) -> R {
        let l = self.lead();
        match self.rng.below(4) {
            0 => {
                let k = self.rng.idx(3);
                self.go(Act::Crash(l, k))?;
                self.elect()?;
                if self.rng.chance(2, 3) {
                    self.go(Act::Restart(l))?;
                }
            }
            1 => {
                let k = self.rng.idx(3);
                self.isolate(l, k)?;
                self.elect()?;
                if self.rng.chance(2, 3) {
                    self.heal_node(l)?;
                }
            }
            _ => {
                let o = self.other(l);
                self.go(Act::Tbl(o))?;
                let k = self.rng.range(0, 4);
                self.rounds(k)?;
            }
        }
        Ok(())
    }
    fn unstall_some(&mut self) -> R {
        let n = self.n();
        let all = self.rng.chance(1, 3);
        for l in 0..n * n {
            if self.c().stall[l] && (all || self.rng.chance(1, 2)) {
                self.go(Act::Unstall(l / n, l % n))?;
            }
        }
        for i in 0..n {
            if self.c().paused[i] && (all || self.rng.chance(1, 2)) {
                self.go(Act::Resume(i))?;
            }
        }
        Ok(())
    }
    /// messages are held back across one or more leader changes and arrive late
    fn late(&mut self) -> R {
        let n = self.n();
        let l = self.lead();
        let k = self.rng.below(3);
        self.appends(k)?;
        for i in 0..n {
            if self.rng.chance(3, 4) {
                self.go(Act::Flush(i))?;
            }
        }
        match self.rng.below(4) {
            0 => {
                // part of what reaches the leader
                for j in 0..n {
                    if j != l && self.rng.chance(1, 2) {
                        self.go(Act::Stall(j, l))?;
                    }
                }
            }
            1 => {
                for j in 0..n {
                    if j != l && self.rng.chance(1, 2) {
                        self.go(Act::Stall(l, j))?;
                    }
                }
            }
            2 => {
                let p = if self.rng.chance(1, 2) { l } else { self.node() };
                self.go(Act::Pause(p))?;
            }
            _ => {
                for x in 0..n * n {
                    if x / n != x % n && self.rng.chance(1, 4) {
                        self.go(Act::Stall(x / n, x % n))?;
                    }
                }
            }
        }
        if self.rng.chance(1, 2) {
            // the old leader's appends reach only some, and their answers are late
            let k = self.rng.range(1, 3);
            for _ in 0..k {
                self.go(Act::Append(l))?;
            }
            self.go(Act::Flush(l))?;
            let k = self.rng.range(1, 10);
            self.calm_steps(k)?;
        }
        for _ in 0..self.rng.range(1, 3) {
            match self.rng.below(4) {
                0 => {
                    let o = self.other(l);
                    self.go(Act::Tbl(o))?;
                }
                1 => self.go(Act::Tbl(l))?,
                2 => self.leader_change()?,
                _ => {}
            }
            let k = self.rng.below(3 * self.cfg().el() + 2);
            self.rounds(k)?;
            let k = self.rng.below(3);
            self.appends(k)?;
            let k = self.rng.below(20);
            self.chaos(k)?;
        }
        if self.rng.chance(1, 2) {
            self.go(Act::Tbl(l))?;
            let k = self.rng.below(3);
            self.rounds(k)?;
            if self.rng.chance(1, 2) {
                self.go(Act::Append(l))?;
            }
        }
        // the late messages arrive
        for x in 0..n * n {
            if self.c().stall[x] && self.rng.chance(2, 3) {
                self.go(Act::Unstall(x / n, x % n))?;
                let k = self.rng.below(self.c().links[x].len() as u64 + 2);
                for _ in 0..k {
                    self.go(Act::Del(x / n, x % n))?;
                }
            }
        }
        let k = self.rng.below(25);
        self.chaos(k)?;
        self.unstall_some()
    }
    /// the cluster is split again and again into groups that elect their own leaders, while what
    /// some followers answered to the first leader is still on its way
    fn regroup(&mut self) -> R {
        let n = self.n();
        let l = self.lead();
        let bit = |a: usize, b: usize| 1u64 << (a.min(b) * n + a.max(b));
        let mut held: Vec<usize> = (0..n).filter(|j| *j != l).collect();
        self.rng.shuffle(&mut held);
        let k = 1 + self.rng.idx(((n - 1) / 2).max(1));
        held.truncate(k);
        for j in held.clone() {
            self.go(Act::Stall(j, l))?;
        }
        // first the old leader with those followers
        let mut inside: Vec<bool> = (0..n).map(|j| j == l || held.contains(&j)).collect();
        let mut first = true;
        for _ in 0..self.rng.range(2, 4) {
            let mut g = 0u64;
            for a in 0..n {
                for b in 0..a {
                    if inside[a] == inside[b] || (a == l && held.contains(&b)) || (b == l && held.contains(&a)) {
                        g |= bit(a, b);
                    }
                }
            }
            self.go(Act::Graph(g))?;
            if first || self.rng.chance(1, 2) {
                for _ in 0..self.rng.range(1, 2) {
                    self.go(Act::Append(l))?;
                }
                let s = self.rng.below(1 << 32);
                let k = self.rng.range(1, 3) as u8;
                self.go(Act::Exchange(s, k))?;
            }
            // a leader for the larger group
            let big = inside.iter().filter(|x| **x).count() * 2 > n;
            let v: Vec<usize> = (0..n).filter(|j| inside[*j] == big).collect();
            let c = if v.contains(&l) && self.rng.chance(3, 4) { l } else { *self.rng.pick(&v) };
            let ex = self.rng.range(1, 4) as u8;
            let s = self.rng.below(1 << 32);
            self.go(Act::Exchange(s, ex))?;
            for _ in 0..self.rng.range(1, 2) {
                self.go(Act::Tbl(c))?;
            }
            let ex = self.rng.range(1, 5) as u8;
            let s = self.rng.below(1 << 32);
            self.go(Act::Exchange(s, ex))?;
            if self.rng.chance(2, 3) {
                self.go(Act::Append(c))?;
            }
            let ex = self.rng.below(4) as u8;
            let s = self.rng.below(1 << 32);
            self.go(Act::Exchange(s, ex))?;
            if c == l && !first {
                for j in held.clone() {
                    if self.rng.chance(1, 2) && self.c().stall[j * n + l] {
                        self.go(Act::Unstall(j, l))?;
                        let k = self.rng.below(self.c().links[j * n + l].len() as u64 + 2);
                        for _ in 0..k {
                            self.go(Act::Del(j, l))?;
                        }
                    }
                }
            }
            first = false;
            // who stays apart next
            let back = self.rng.chance(2, 3);
            for j in 0..n {
                inside[j] = if j == l { back } else if held.contains(&j) { self.rng.chance(1, 4) == back } else { self.rng.chance(3, 4) };
            }
            if !inside.contains(&false) {
                let j = self.other(l);
                inside[j] = false;
            }
        }
        for j in held {
            self.go(Act::Unstall(j, l))?;
        }
        let ex = self.rng.below(4) as u8;
        let s = self.rng.below(1 << 32);
        self.go(Act::Exchange(s, ex))?;
        let k = self.rng.below(15);
        self.chaos(k)
    }
    /// uneven logs, then one or two servers take over peer by peer, with peers interrupted in between
    fn pieces(&mut self) -> R {
        let n = self.n();
        let l = self.lead();
        // what the leader appends reaches only some, and only some of it is acknowledged
        for _ in 0..self.rng.range(1, 3) {
            for _ in 0..self.rng.range(0, 2) {
                self.go(Act::Append(l))?;
            }
            self.go(Act::Flush(l))?;
            for j in 0..n {
                if j != l && self.rng.chance(1, 2) {
                    self.pass(l, j)?;
                    self.go(Act::Flush(j))?;
                    if self.rng.chance(2, 3) {
                        self.pass(j, l)?;
                    }
                }
            }
            if self.rng.chance(1, 3) {
                self.compact()?;
            }
        }
        let mut cand = self.other(l);
        self.go(Act::Tbl(cand))?;
        let steps = self.rng.range(2, 3 * n as u64);
        for _ in 0..steps {
            if self.rng.chance(1, 12) {
                cand = self.live();
                self.go(Act::Tbl(cand))?;
            }
            let p = self.other(cand);
            self.go(Act::Flush(cand))?;
            match self.rng.below(10) {
                0 => {
                    // the session breaks and comes back at both ends, in any order
                    let keep = self.rng.idx(3);
                    self.go(Act::Cut(cand, p, keep))?;
                    self.go(Act::Heal(cand, p))?;
                    let (a, b) = if self.rng.chance(1, 2) { (cand, p) } else { (p, cand) };
                    self.go(Act::Recon(a, b))?;
                    if self.rng.chance(2, 3) {
                        self.go(Act::Flush(a))?;
                        self.pass(a, b)?;
                    }
                    self.go(Act::Recon(b, a))?;
                    if self.rng.chance(2, 3) {
                        self.go(Act::Flush(b))?;
                        self.pass(b, a)?;
                    }
                }
                1 => {
                    let keep = self.rng.idx(3);
                    self.go(Act::Crash(p, keep))?;
                    self.go(Act::Restart(p))?;
                    self.go(Act::Flush(p))?;
                    if self.rng.chance(2, 3) {
                        self.pass(p, cand)?;
                    }
                }
                2 => {
                    let i = if self.rng.chance(1, 2) { cand } else { p };
                    self.go(Act::Append(i))?;
                }
                3 => {
                    let i = if self.rng.chance(1, 2) { cand } else { p };
                    self.go(Act::Tick(i))?;
                }
                _ => {
                    self.pass(cand, p)?;
                    self.go(Act::Flush(p))?;
                    if self.rng.chance(4, 5) {
                        self.pass(p, cand)?;
                    }
                }
            }
        }
        let k = self.rng.below(20);
        self.chaos(k)
    }
    /// some or all of what is on its way from a to b arrives
    fn pass(&mut self, a: usize, b: usize) -> R {
        let n = self.n();
        let len = self.c().links[a * n + b].len() as u64;
        let k = if self.rng.chance(3, 4) { len } else { self.rng.below(len + 1) };
        for _ in 0..k {
            self.go(Act::Del(a, b))?;
        }
        Ok(())
    }
    fn appends(&mut self, k: u64) -> R {
        for _ in 0..k {
            let i = if self.rng.chance(2, 3) { self.lead() } else { self.live() };
            self.go(Act::Append(i))?;
        }
        Ok(())
    }
    /// a server falls behind, the rest goes on, compacts, maybe changes leader; then it comes back
    fn lag(&mut self) -> R {
        let l = self.lead();
        let f = if self.rng.chance(4, 5) { self.other(l) } else { l };
        let keep = self.rng.idx(3);
        let crash = self.rng.chance(1, 3);
        // partial progress towards f before it lags
        let k = self.rng.below(4);
        self.appends(k)?;
        if self.rng.chance(1, 2) {
            let k = self.rng.range(2, 25);
            self.chaos(k)?;
        }
        if crash {
            self.go(Act::Crash(f, keep))?;
        } else {
            self.isolate(f, keep)?;
        }
        for _ in 0..self.rng.range(1, 3) {
            let k = self.rng.range(1, 5);
            self.appends(k)?;
            let k = self.rng.range(1, 5);
            self.rounds(k)?;
            if self.rng.chance(1, 2) {
                self.compact()?;
                let k = self.rng.below(3);
                self.rounds(k)?;
            }
            if self.rng.chance(1, 3) {
                self.leader_change()?;
            }
        }
        if self.rng.chance(1, 3) {
            let k = self.rng.range(1, 4);
            self.appends(k)?;
        }
        self.reads(3)?;
        if crash {
            self.go(Act::Restart(f))?;
        } else {
            self.heal_node(f)?;
        }
        let k = self.rng.below(6);
        self.rounds(k)?;
        self.reads(3)
    }
    fn phase(&mut self, scen: Scen) -> R {
        match self.rng.below(if scen == Scen::Lag { 16 } else { 14 }) {
            0 => {
                let k = self.rng.range(2, 15);
                self.rounds(k)
            }
            1..=4 => {
                let k = self.rng.range(10, 120);
                self.chaos(k)
            }
            5 => {
                let k = self.rng.range(1, 6);
                self.appends(k)?;
                let k = self.rng.below(4);
                self.rounds(k)?;
                self.leader_change()
            }
            6 => {
                // several leader changes with little traffic in between
                for _ in 0..self.rng.range(2, 4) {
                    let k = self.rng.range(0, 3);
                    self.appends(k)?;
                    let k = self.rng.range(0, 12);
                    self.chaos(k)?;
                    self.leader_change()?;
                }
                Ok(())
            }
            7 | 8 => self.late(),
            9 | 10 => self.regroup(),
            11 | 12 => self.pieces(),
            _ => self.lag(),
        }
    }
    fn prefix(&mut self, scen: Scen, max: u64) -> R {
        if self.rng.chance(3, 4) {
            let k = self.rng.range(3, 10) + self.cfg().el();
            self.rounds(k)?;
            let k = self.rng.range(0, 5);
            self.appends(k)?;
            let k = self.rng.below(3);
            self.rounds(k)?;
            if self.rng.chance(1, 80) {
                self.burst()?;
            }
            if self.rng.chance(1, 120) {
                self.churn()?;
            }
        }
        for _ in 0..self.rng.range(1, max) {
            self.phase(scen)?;
        }
        Ok(())
    }
    /// many leaders in a row
    fn churn(&mut self) -> R {
        for _ in 0..self.rng.range(10, 60) {
            let i = self.live();
            self.go(Act::Tbl(i))?;
            if self.rng.chance(1, 3) {
                let i = self.live();
                self.go(Act::Append(i))?;
            }
            let k = self.rng.range(1, 2);
            self.rounds(k)?;
        }
        Ok(())
    }
    /// a long log: more distinct values than any cache of the entry type holds
    fn burst(&mut self) -> R {
        let k = if self.prof.id == "C18" || self.rng.chance(1, 5) { self.rng.range(260, 420) } else { self.rng.range(20, 70) };
        let step = self.rng.range(4, 60);
        for x in 0..k {
            let i = self.lead();
            self.go(Act::Append(i))?;
            if x % step == step - 1 {
                self.rounds(1)?;
            }
        }
        self.rounds(2)
    }
    fn finish(&mut self) -> R {
        self.go(Act::FullCheck)?;
        self.reads(6)?;
        self.go(Act::Barrier)?;
        self.go(Act::HealAll)?;
        let k = self.settle_rounds();
        self.rounds(k)?;
        self.go(Act::Probe)?;
        let k = self.probe_rounds();
        self.rounds(k)?;
        self.go(Act::Converged)?;
        self.reads(10)
    }
    pub fn run(&mut self, scen: Scen) -> R {
        match scen {
            Scen::Mixed | Scen::CrashHeavy | Scen::Lag => {
                self.prefix(scen, 5)?;
                self.finish()
            }
            Scen::Reconf => self.scen_reconf(),
            Scen::Partial => self.scen_partial(),
            Scen::Windows => self.scen_windows(),
            Scen::Quorums => self.scen_quorums(),
            Scen::Startup => self.scen_startup(),
            Scen::Loss => self.scen_loss(),
        }
    }
    fn scen_reconf(&mut self) -> R {
        self.prefix(Scen::Mixed, 3)?;
        // the interesting part: a stop-sign on its way while things break
        for _ in 0..self.rng.range(1, 3) {
            let k = self.rng.below(3);
            self.appends(k)?;
            let i = if self.rng.chance(2, 3) { self.lead() } else { self.live() };
            let s = self.rng.below(1 << 32);
            if self.rng.chance(1, 6) {
                self.go(Act::ReconfBad(i, s))?;
            }
            self.go(Act::Reconf(i, s))?;
            match self.rng.below(4) {
                0 => {
                    let k = self.rng.range(1, 40);
                    self.chaos(k)?;
                }
                1 => {
                    self.go(Act::Flush(i))?;
                    let k = self.rng.range(1, 10);
                    self.chaos(k)?;
                    self.leader_change()?;
                }
                2 => {
                    let s = self.rng.below(1 << 32);
                    self.go(Act::Round(s, 1))?;
                    self.leader_change()?;
                }
                _ => self.lag()?,
            }
            if self.rng.chance(1, 2) {
                self.compact()?;
            }
        }
        let healthy = self.rng.chance(1, 2);
        self.go(Act::FullCheck)?;
        self.reads(6)?;
        self.go(Act::Barrier)?;
        self.go(Act::HealAll)?;
        let k = self.settle_rounds();
        self.rounds(k)?;
        if healthy {
            self.go(Act::Window)?;
            // sometimes only the leader and enough servers to accept are there to decide it
            let part = self.rng.chance(1, 3);
            if part {
                let (keep, s) = (self.cfg().write_q(), self.rng.below(1 << 32));
                self.go(Act::Shrink(keep, true, s))?;
            }
            let i = self.live();
            let s = self.rng.below(1 << 32);
            self.go(Act::WinReconf(i, s))?;
            if part {
                let k = 2 * self.cfg().el() + 2 * self.cfg().fl() + 2 * self.cfg().rs() + 6;
                self.rounds(k)?;
                self.go(Act::WinReconfCheck)?;
                self.go(Act::HealAll)?;
            }
        } else {
            self.go(Act::Probe)?;
        }
        let k = self.probe_rounds();
        self.rounds(k)?;
        self.go(Act::Converged)?;
        self.go(Act::WinReconfCheck)?;
        self.reads(10)?;
        // appends after the end must be refused (oracle in Append)
        for i in 0..self.n() {
            self.go(Act::Append(i))?;
            self.go(Act::Reconf(i, i as u64))?;
        }
        if self.c().stop_pos().is_none() {
            return Ok(());
        }
        self.hand_over()?;
        // and on to further configurations
        for _ in 0..2 {
            if !self.rng.chance(1, 4) {
                break;
            }
            let k = self.rng.below(4);
            self.appends(k)?;
            if self.rng.chance(1, 2) {
                self.phase(Scen::Mixed)?;
            }
            let i = if self.rng.chance(2, 3) { self.lead() } else { self.live() };
            let s = self.rng.below(1 << 32);
            self.go(Act::Reconf(i, s))?;
            match self.rng.below(3) {
                0 => self.leader_change()?,
                1 => {
                    let k = self.rng.range(1, 30);
                    self.chaos(k)?;
                }
                _ => {}
            }
            self.go(Act::HealAll)?;
            let k = self.settle_rounds();
            self.rounds(k)?;
            self.go(Act::Probe)?;
            let k = self.probe_rounds();
            self.rounds(k)?;
            self.go(Act::Converged)?;
            self.reads(4)?;
            if self.c().stop_pos().is_none() {
                break;
            }
            self.hand_over()?;
        }
        Ok(())
    }
    /// starts the next configuration and uses it
    fn hand_over(&mut self) -> R {
        let m = 8;
        let order: Vec<usize> = {
            let mut v: Vec<usize> = (0..m).collect();
            self.rng.shuffle(&mut v);
            v
        };
        for k in order {
            self.go(Act::StartNext(k))?;
            if self.rng.chance(1, 3) && self.w.cl.len() > self.w.cur + 1 {
                self.go(Act::Use(self.w.cur + 1))?;
                let k = self.rng.below(4);
                self.rounds(k)?;
                self.go(Act::Use(self.w.cur - 1))?;
            }
        }
        for k in 0..m {
            self.go(Act::StartNext(k))?;
        }
        let k = self.rng.below(3);
        self.rounds(k)?;
        self.go(Act::Use(self.w.cur + 1))?;
        let k = self.settle_rounds();
        self.rounds(k)?;
        self.go(Act::Probe)?;
        let k = self.probe_rounds();
        self.rounds(k)?;
        self.go(Act::Converged)
    }
    fn qc_graph(&mut self) -> u64 {
        let n = self.n();
        let q = self.cfg().read_q();
        let bit = |a: usize, b: usize| 1u64 << (a.min(b) * n + a.max(b));
        let mut g = 0u64;
        let hub = match self.rng.below(3) {
            0 => self.lead(),
            _ => self.node(),
        };
        match self.rng.below(5) {
            0 => {
                // quorum loss: everybody is connected only to the hub
                for j in 0..n {
                    if j != hub {
                        g |= bit(hub, j);
                    }
                }
            }
            1 => {
                // constrained election: old leader isolated (or nearly), hub connected to a quorum
                let l = self.lead();
                let mut v: Vec<usize> = (0..n).filter(|j| *j != hub && *j != l).collect();
                self.rng.shuffle(&mut v);
                for j in v {
                    g |= bit(hub, j);
                }
                if n <= 3 {
                    g |= bit(hub, l);
                }
            }
            2 => {
                // chained: all links but one
                for a in 0..n {
                    for b in 0..a {
                        g |= bit(a, b);
                    }
                }
                let a = self.lead();
                let b = self.other(a);
                g &= !bit(a, b);
            }
            _ => {
                for a in 0..n {
                    for b in 0..a {
                        if self.rng.chance(1, 2) {
                            g |= bit(a, b);
                        }
                    }
                }
            }
        }
        // make the hub quorum-connected
        let mut v: Vec<usize> = (0..n).filter(|j| *j != hub).collect();
        self.rng.shuffle(&mut v);
        let mut have = v.iter().filter(|j| g & bit(hub, **j) != 0).count() + 1;
        for j in v {
            if have >= q {
                break;
            }
            if g & bit(hub, j) == 0 {
                g |= bit(hub, j);
                have += 1;
            }
        }
        g
    }
    fn scen_partial(&mut self) -> R {
        if self.rng.chance(3, 4) {
            self.elect()?;
            let k = self.rng.range(0, 4);
            self.appends(k)?;
            let k = self.rng.below(3);
            self.rounds(k)?;
        }
        if self.rng.chance(1, 2) {
            let k = self.rng.range(5, 80);
            self.chaos(k)?;
        }
        // servers are up; only links misbehave from here on
        self.go(Act::HealAll)?;
        let k = self.rng.below(12);
        self.rounds(k)?;
        for _ in 0..self.rng.below(3) {
            let g = self.qc_graph();
            self.go(Act::Graph(g))?;
            let k = self.rng.below(8 * self.cfg().el());
            self.rounds(k)?;
        }
        let g = self.qc_graph();
        self.go(Act::FullCheck)?;
        self.go(Act::Barrier)?;
        self.go(Act::HealAll)?;
        if self.rng.chance(1, 4) {
            let i = self.node();
            self.go(Act::Tbl(i))?;
        }
        self.go(Act::Graph(g))?;
        if self.rng.chance(1, 3) {
            // a server that cannot reach a quorum may be the one that is asked to lead
            let k = self.rng.below(10);
            self.rounds(k)?;
            let i = self.node();
            self.go(Act::Tbl(i))?;
        }
        let k = 20 * self.cfg().el() + 2 * self.cfg().rs() + 10;
        self.rounds(k)?;
        self.go(Act::Status)?;
        self.go(Act::Mark)?;
        for _ in 0..3 {
            self.go(Act::Probe)?;
            let k = 2 * self.cfg().el() + 2 * self.cfg().fl() + self.cfg().rs() + 4;
            self.rounds(k)?;
        }
        self.go(Act::Grown)
    }
    fn scen_windows(&mut self) -> R {
        if self.rng.chance(3, 5) {
            self.prefix(Scen::Mixed, 3)?;
        }
        self.go(Act::FullCheck)?;
        self.go(Act::Barrier)?;
        self.go(Act::HealAll)?;
        let k = self.settle_rounds();
        self.rounds(k)?;
        self.go(Act::Probe)?;
        let k = self.probe_rounds();
        self.rounds(k)?;
        self.go(Act::Status)?;
        for _ in 0..self.rng.range(1, 3) {
            self.go(Act::Window)?;
            // bursts from several servers, fine grained fault-free schedule in between
            for _ in 0..self.rng.range(1, 4) {
                let i = if self.rng.chance(1, 3) { self.lead() } else { self.node() };
                for _ in 0..self.rng.range(1, 4) {
                    self.go(Act::WinAppend(i))?;
                }
                self.calm_steps(12)?;
            }
            let k = self.win_rounds();
            self.rounds(k)?;
            self.go(Act::WinCheck)?;
            match self.rng.below(3) {
                0 => {
                    let i = self.node();
                    self.go(Act::Tbl(i))?;
                    if self.rng.chance(1, 2) {
                        let j = self.node();
                        self.go(Act::Append(j))?;
                    }
                    let k = 6 * self.cfg().el() + 2 * self.cfg().fl() + 6;
                    self.rounds(k)?;
                    self.go(Act::Leads(i))?;
                    let k = 4 * self.cfg().el() + self.cfg().rs();
                    self.rounds(k)?;
                    self.go(Act::WinCheck)?;
                }
                1 if !T::SNAP => {
                    self.go(Act::WinTrim)?;
                    self.rounds(3)?;
                    self.go(Act::WinSnapCheck)?;
                    if self.rng.chance(1, 2) {
                        // life goes on after the trim
                        self.lag()?;
                        self.go(Act::HealAll)?;
                        let k = self.settle_rounds();
                        self.rounds(k)?;
                        self.go(Act::Probe)?;
                        let k = self.probe_rounds();
                        self.rounds(k)?;
                        self.go(Act::Converged)?;
                    }
                }
                1 => {
                    let i = self.node();
                    self.go(Act::WinSnap(i))?;
                    self.rounds(3)?;
                    self.go(Act::WinSnapCheck)?;
                }
                _ => {}
            }
            self.reads(6)?;
        }
        Ok(())
    }
    /// ticks, flushes and FIFO deliveries in any order, no fault
    fn calm_steps(&mut self, k: u64) -> R {
        let n = self.n();
        for _ in 0..self.rng.below(k + 1) {
            match self.rng.below(6) {
                0 | 1 => {
                    let i = self.node();
                    if self.rng.chance(1, 8) {
                        self.go(Act::Take(i))?;
                    } else {
                        self.go(Act::Flush(i))?;
                    }
                }
                _ => {
                    let v: Vec<usize> = (0..n * n).filter(|l| self.c().deliverable(*l)).collect();
                    if !v.is_empty() {
                        let l = *self.rng.pick(&v);
                        self.go(Act::Del(l / n, l % n))?;
                    }
                }
            }
        }
        Ok(())
    }
    fn scen_quorums(&mut self) -> R {
        if self.rng.chance(1, 3) {
            self.prefix(Scen::Mixed, 2)?;
        }
        self.go(Act::FullCheck)?;
        self.go(Act::Barrier)?;
        self.go(Act::HealAll)?;
        let k = self.settle_rounds();
        self.rounds(k)?;
        self.go(Act::Probe)?;
        let k = self.probe_rounds();
        self.rounds(k)?;
        self.go(Act::Window)?;
        if self.c().win.is_none() {
            return Ok(());
        }
        let with_leader = self.rng.chance(1, 2);
        let keep = if with_leader { self.cfg().write_q() } else { self.cfg().read_q() };
        if !with_leader && keep >= self.n() {
            return Ok(());
        }
        let s = self.rng.below(1 << 32);
        if with_leader && self.rng.chance(1, 2) {
            // everyone is up, but the leader reaches only a write quorum; the other links are arbitrary
            let n = self.n();
            let l = self.lead();
            let mut g = 0u64;
            let dense = self.rng.range(1, 9);
            for a in 0..n {
                for b in a + 1..n {
                    if a != l && b != l && self.rng.chance(dense, 10) {
                        g |= 1 << (a * n + b);
                    }
                }
            }
            let mut v: Vec<usize> = (0..n).filter(|j| *j != l).collect();
            self.rng.shuffle(&mut v);
            for j in v.into_iter().take(keep - 1) {
                g |= 1 << (j.min(l) * n + j.max(l));
            }
            self.go(Act::Graph(g))?;
        } else {
            self.go(Act::Shrink(keep, with_leader, s))?;
        }
        let k = if with_leader { 0 } else { 16 * self.cfg().el() + 2 * self.cfg().rs() + 6 };
        self.rounds(k)?;
        self.go(Act::Mark)?;
        for _ in 0..2 {
            self.go(Act::Probe)?;
            let k = 2 * self.cfg().el() + 2 * self.cfg().fl() + self.cfg().rs() + 4;
            self.rounds(k)?;
        }
        self.go(Act::Grown)?;
        // stays available over many election timeouts
        let k = 10 * self.cfg().el();
        self.rounds(k)?;
        self.go(Act::Status)?;
        self.go(Act::Mark)?;
        self.go(Act::Probe)?;
        let k = 2 * self.cfg().el() + 2 * self.cfg().fl() + self.cfg().rs() + 4;
        self.rounds(k)?;
        self.go(Act::Grown)?;
        // everyone back, nothing lost
        self.go(Act::HealAll)?;
        let k = self.settle_rounds();
        self.rounds(k)?;
        self.go(Act::Probe)?;
        let k = self.probe_rounds();
        self.rounds(k)?;
        self.go(Act::Converged)
    }
    fn scen_startup(&mut self) -> R {
        self.go(Act::Barrier)?;
        // sometimes only a quorum of the servers ever comes up
        let part = self.rng.chance(1, 3);
        if part {
            let mut v: Vec<usize> = (0..self.n()).collect();
            self.rng.shuffle(&mut v);
            for i in v.into_iter().skip(self.cfg().read_q()) {
                self.go(Act::Crash(i, 0))?;
            }
        }
        // the first heartbeats arrive before the first election timeout
        let s = self.rng.below(1 << 32);
        self.go(Act::Exchange(s, 4))?;
        let ss = self.rng.chance(1, 3);
        for _ in 0..self.rng.below(4) {
            let i = self.live();
            self.go(Act::EarlyAppend(i))?;
            if self.rng.chance(1, 3) {
                self.calm_steps(6)?;
            }
        }
        if ss {
            let i = self.live();
            let s = self.rng.below(1 << 32);
            self.go(Act::EarlyReconf(i, s))?;
        }
        // appends while the first leader is still being established; message delays of any length
        let fine = self.rng.chance(1, 2);
        if fine {
            for _ in 0..self.rng.range(1, 3 * self.cfg().el() + 2) {
                let s = self.rng.below(1 << 32);
                let sub = self.rng.below(3) as u8;
                self.go(Act::Round(s, sub))?;
                self.calm_steps(14)?;
                for _ in 0..self.rng.below(3) {
                    let i = self.live();
                    self.go(Act::EarlyAppend(i))?;
                    if self.rng.chance(1, 2) {
                        self.go(Act::Flush(i))?;
                    }
                }
                if !ss && self.rng.chance(1, 12) {
                    let i = self.live();
                    let s = self.rng.below(1 << 32);
                    self.go(Act::EarlyReconf(i, s))?;
                }
            }
        }
        let k = 10 * self.cfg().el() + 2 * self.cfg().rs() + 2 * self.cfg().fl() + 10;
        self.rounds(k)?;
        if !fine && !part {
            self.go(Act::PrioLeads)?;
        }
        self.go(Act::EarlyCheck)?;
        if part {
            // the others come up late
            self.go(Act::HealAll)?;
            let k = self.settle_rounds();
            self.rounds(k)?;
        }
        self.go(Act::Window)?;
        let i = self.node();
        self.go(Act::WinAppend(i))?;
        let k = self.win_rounds();
        self.rounds(k)?;
        self.go(Act::WinCheck)?;
        let k = 6 * self.cfg().el() + 2 * self.cfg().rs();
        self.rounds(k)?;
        self.go(Act::WinCheck)
    }
    /// silent loss with FIFO delivery of the rest
    fn scen_loss(&mut self) -> R {
        let k = self.rng.range(3, 8) + self.cfg().el();
        self.rounds(k)?;
        let n = self.n();
        for _ in 0..self.rng.range(1, 4) {
            let k = self.rng.below(4);
            self.appends(k)?;
            if self.rng.chance(1, 3) {
                let i = self.node();
                self.go(Act::Tbl(i))?;
            }
            if self.rng.chance(1, 8) {
                let i = self.lead();
                let s = self.rng.below(1 << 32);
                self.go(Act::Reconf(i, s))?;
            }
            if self.rng.chance(1, 6) {
                let i = self.node();
                self.go(Act::Crash(i, 0))?;
                self.go(Act::Restart(i))?;
            }
            // rounds in which some links lose everything or a fraction
            for _ in 0..self.rng.range(1, 12) {
                let i = self.live();
                if self.rng.chance(1, 3) {
                    self.go(Act::Tick(i))?;
                }
                if self.rng.chance(1, 4) {
                    self.appends(1)?;
                }
                for i in 0..n {
                    if self.rng.chance(3, 4) {
                        self.go(Act::Flush(i))?;
                    }
                }
                let lossy = self.rng.range(1, 6);
                let ls: Vec<usize> = (0..n * n).filter(|l| !self.c().links[*l].is_empty()).collect();
                for l in ls {
                    let len = self.c().links[l].len();
                    for _ in 0..len {
                        if self.rng.chance(1, lossy + 1) {
                            self.go(Act::Drop(l / n, l % n, 0))?;
                        } else {
                            self.go(Act::Del(l / n, l % n))?;
                        }
                    }
                }
            }
            let k = self.rng.below(5);
            self.rounds(k)?;
        }
        self.finish()
    }
}
