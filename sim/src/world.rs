//! One simulated deployment: servers (real library code), simulated disks, links, clocks, clients,
//! the reference decided log and the oracles. Everything that happens is an `Act`; a run is a
//! configuration plus a list of acts and nothing else.
use crate::{disk::*, entry::SimEntry, rng::Rng};
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{ballot_leader_election::HeartbeatMsg, sequence_paxos::PaxosMsg, Message},
    storage::StopSign,
    util::{FlexibleQuorum, LogEntry},
    ClusterConfig, CompactionErr, OmniPaxos, ProposeErr, ServerConfig,
};
use serde::{Deserialize, Serialize};
use std::{
    ops::Bound,
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, VecDeque},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct NodeCfg {
    pub pid: u64,
    pub batch: usize,
    pub el: u64,
    pub rs: u64,
    pub fl: u64,
    pub buf: usize,
    pub prio: u32,
}
impl NodeCfg {
    pub fn server_config(&self) -> ServerConfig {
        ServerConfig {
            pid: self.pid,
            election_tick_timeout: self.el,
            resend_message_tick_timeout: self.rs,
            flush_batch_tick_timeout: self.fl,
            buffer_size: self.buf,
            batch_size: self.batch,
            leader_priority: self.prio,
            #[cfg(feature = "toml")]
            logger_file_path: None,
            #[cfg(feature = "toml")]
            custom_logger: Some(crate::tomlcfg::logger()),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Net {
    /// FIFO sessions; what a broken session loses is followed by reconnected() on both sides
    Session,
    /// FIFO, single messages silently lost, reconnected() never called
    Lossy,
    /// messages may also be reordered and duplicated
    Chaos,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub kind: String,
    pub cid: u32,
    pub nodes: Vec<NodeCfg>,
    pub fq: Option<(usize, usize)>,
    pub net: Net,
    pub serde: bool,
    pub rocks: bool,
    /// timing of servers that join later through a reconfiguration
    pub join: NodeCfg,
    /// not 0: servers are configured from TOML files, drawn from this seed
    #[serde(default)]
    pub toml: u64,
}
impl Cfg {
    pub fn n(&self) -> usize {
        self.nodes.len()
    }
    pub fn read_q(&self) -> usize {
        self.fq.map(|q| q.0).unwrap_or(self.n() / 2 + 1)
    }
    pub fn write_q(&self) -> usize {
        self.fq.map(|q| q.1).unwrap_or(self.n() / 2 + 1)
    }
    pub fn cluster_config(&self) -> ClusterConfig {
        ClusterConfig {
            configuration_id: self.cid,
            nodes: self.nodes.iter().map(|n| n.pid).collect(),
            flexible_quorum: self.fq.map(|(r, w)| FlexibleQuorum {
                read_quorum_size: r,
                write_quorum_size: w,
            }),
        }
    }
    pub fn el(&self) -> u64 {
        self.nodes.iter().map(|n| n.el).max().unwrap()
    }
    pub fn rs(&self) -> u64 {
        self.nodes.iter().map(|n| n.rs).max().unwrap()
    }
    pub fn fl(&self) -> u64 {
        self.nodes.iter().map(|n| n.fl).max().unwrap()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Tick(usize),
    Flush(usize),
    /// take the outgoing messages into the application's buffer without sending them yet
    Take(usize),
    /// deliver the head of link a->b
    Del(usize, usize),
    /// deliver the k-th message of link a->b (reordering)
    DelK(usize, usize, usize),
    Drop(usize, usize, usize),
    Dup(usize, usize, usize),
    /// cut the link between a and b; in flight messages after the first `keep` of each direction are lost
    Cut(usize, usize, usize),
    Heal(usize, usize),
    /// a is told that its session to b was re-established
    Recon(usize, usize),
    /// `reconnected` with the server's own id
    SelfRecon(usize),
    /// crash; messages it already sent survive up to `keep` per link
    Crash(usize, usize),
    /// arm a storage fault on server n, `k` operations ahead
    Arm(usize, FaultKind, u64),
    Restart(usize),
    Append(usize),
    /// n, selector of the new configuration, with metadata
    Reconf(usize, u64),
    Trim(usize, Option<u64>),
    Snap(usize, Option<u64>, bool),
    Tbl(usize),
    Prio(usize, u32),
    Read(usize, u64, u64, u8),
    /// one calm tick for everybody: all tick, then `sub` rounds of flush and full delivery, order from seed
    Round(u64, u8),
    /// as Round, but nobody's clock ticks
    Exchange(u64, u8),
    /// messages from a to b are delayed (kept in order) until Unstall
    Stall(usize, usize),
    Unstall(usize, usize),
    /// server n is stalled: its clock and network stand still until Resume
    Pause(usize),
    Resume(usize),
    /// only these links are up (bit a*n+b, a<b); sessions re-established where they come up
    Graph(u64),
    /// all links up, all servers up, sessions re-established, pending storage faults disarmed
    HealAll,
    /// append one entry on every live server
    Probe,
    /// start server k of the next configuration once the current one reports the stop-sign decided
    StartNext(usize),
    /// switch the target of the following acts to configuration k
    Use(usize),
    /// acts after this one are never removed by the minimiser
    Barrier,
    Converged,
    Mark,
    /// the longest decided log has grown since Mark
    Grown,
    /// opens a healthy window if every server follows one established leader
    Window,
    WinAppend(usize),
    /// everything appended in the window is decided, once, in order, on every server; leader unchanged
    WinCheck,
    /// server n (by take-over request) must be the leader now
    Leads(usize),
    /// the server with the highest (priority, pid) must be the leader of everyone
    PrioLeads,
    /// leader trims everything in a healthy window: must work
    WinTrim,
    /// healthy-window reconfiguration requested at n
    WinReconf(usize, u64),
    WinReconfCheck,
    /// every server of the current configuration reports the whole log, compacted or not
    FullCheck,
    /// crash all but `keep` servers, the leader among the survivors iff `leader`
    Shrink(usize, bool, u64),
    /// healthy-window snapshot on n, not local; afterwards WinSnapCheck
    WinSnap(usize),
    WinSnapCheck,
    /// remember what is appended before any leader exists
    EarlyAppend(usize),
    EarlyReconf(usize, u64),
    EarlyCheck,
    /// nothing has changed for several election timeouts: the status reports show the real cluster
    Status,
    /// reconfiguration request with an invalid configuration
    ReconfBad(usize, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub oracle: &'static str,
    pub msg: String,
}
type Res = Result<(), Violation>;

#[derive(Clone, Debug, PartialEq)]
pub enum Slot<T> {
    E(T),
    S(StopSign),
}

pub struct Node<T: SimEntry> {
    pub cfg: NodeCfg,
    pub op: Option<OmniPaxos<T, SimStorage<T>>>,
    pub disk: Rc<RefCell<Disk<T>>>,
    pub inc: u32,
    pub started: bool,
    seen_writes: u64,
    pub decided: usize,
    pub compacted: usize,
    pub promise: Ballot,
    acc_round: Ballot,
    pub reconf: bool,
    own: Vec<Option<Slot<T>>>,
    win: Vec<u64>,
    resyncs: u32,
    crash_pending_check: bool,
    /// messages taken but not sent yet
    outbuf: Vec<Message<T>>,
    /// ticks since the start and heartbeat requests handed out per peer
    hb_ticks: u64,
    hb_sent: BTreeMap<u64, u64>,
}

pub struct Cluster<T: SimEntry> {
    pub cfg: Cfg,
    pub nodes: Vec<Node<T>>,
    pub links: Vec<VecDeque<Message<T>>>,
    pub up: Vec<bool>,
    pub recon: Vec<bool>,
    pub stall: Vec<bool>,
    pub paused: Vec<bool>,
    pub refl: Vec<Slot<T>>,
    ref_ids: BTreeSet<u64>,
    appended: BTreeSet<u64>,
    ss_requested: Vec<StopSign>,
    ballots: BTreeMap<(u32, u32, u64), (usize, u32)>,
    mark: usize,
    pub probes: Vec<u64>,
    pub win: Option<Ballot>,
    /// in a window, and no fault or request since
    quiet: bool,
    win_ss: Option<StopSign>,
    win_snap: Option<usize>,
    /// (server, entry, no leader was known there)
    early: Vec<(usize, u64, bool)>,
    early_ss: Option<(usize, usize)>,
    dup_possible: bool,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub acts: u64,
    pub ticks: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    pub fn hit(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }
    pub fn merge(&mut self, o: &Stats) {
        self.acts += o.acts;
        self.ticks += o.ticks;
        for (k, v) in &o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_default() += v;
        }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_SIM: RefCell<bool> = const { RefCell::new(false) };
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default()
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_sim = IN_SIM.with(|x| *x.borrow());
        if !in_sim {
            default(info);
            return;
        }
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|x| *x.borrow_mut() = Some(format!("{} at {}", m, loc)));
    }));
}

pub struct World<T: SimEntry> {
    pub cl: Vec<Cluster<T>>,
    pub cur: usize,
    pub next_id: u64,
    pub mask: Vec<&'static str>,
    pub stats: Stats,
    pub states: Option<Vec<u64>>,
    pub trace: Option<Vec<String>>,
    #[cfg(feature = "rocks")]
    pub rocks: Option<crate::rocks::RocksEnv>,
}

enum Outcome<R> {
    Done(R),
    Crashed,
}

fn b2t(b: &Ballot) -> (u32, u32, u64) {
    (b.n, b.priority, b.pid)
}

impl<T: SimEntry> Cluster<T> {
    /// something is queued on directed link l and may arrive now
    pub fn deliverable(&self, l: usize) -> bool {
        !self.links[l].is_empty() && !self.stall[l] && !self.paused[l % self.n()]
    }
    fn new(cfg: Cfg) -> Self {
        let n = cfg.n();
        Cluster {
            nodes: vec![],
            links: (0..n * n).map(|_| VecDeque::new()).collect(),
            up: vec![true; n * n],
            recon: vec![false; n * n],
            stall: vec![false; n * n],
            paused: vec![false; n],
            refl: vec![],
            ref_ids: BTreeSet::new(),
            appended: BTreeSet::new(),
            ss_requested: vec![],
            ballots: BTreeMap::new(),
            mark: 0,
            probes: vec![],
            win: None,
            quiet: false,
            win_ss: None,
            win_snap: None,
            early: vec![],
            early_ss: None,
            dup_possible: false,
            cfg,
        }
    }
    pub fn n(&self) -> usize {
        self.cfg.n()
    }
    pub fn idx(&self, pid: u64) -> Option<usize> {
        self.cfg.nodes.iter().position(|c| c.pid == pid)
    }
    pub fn alive(&self, i: usize) -> bool {
        self.nodes[i].op.is_some()
    }
    pub fn n_alive(&self) -> usize {
        (0..self.n()).filter(|i| self.alive(*i)).count()
    }
    /// the server that believes to lead with the highest ballot and is in its accept phase
    pub fn leader(&self) -> Option<usize> {
        (0..self.n())
            .filter(|i| {
                self.nodes[*i].op.as_ref().is_some_and(|o| {
                    o.get_current_leader() == Some((self.nodes[*i].cfg.pid, true))
                })
            })
            .max_by_key(|i| b2t(&self.nodes[*i].op.as_ref().unwrap().get_promise()))
    }
    pub fn stop_pos(&self) -> Option<usize> {
        match self.refl.last() {
            Some(Slot::S(_)) => Some(self.refl.len() - 1),
            _ => None,
        }
    }
    /// all servers up, one leader, everyone in accept phase of the same ballot
    pub fn established(&self) -> Option<Ballot> {
        let mut b: Option<Ballot> = None;
        for nd in &self.nodes {
            let op = nd.op.as_ref()?;
            let p = op.get_promise();
            match op.get_current_leader() {
                Some((pid, true)) if pid == p.pid => {}
                _ => return None,
            }
            if *b.get_or_insert(p) != p {
                return None;
            }
        }
        b
    }
    fn holds(img: &Image<T>, i: usize, s: &Slot<T>) -> bool {
        if i < img.compacted {
            return true;
        }
        match s {
            Slot::E(e) => img.log.get(i - img.compacted) == Some(e),
            Slot::S(ss) => img.ss.as_ref() == Some(ss) && i == img.compacted + img.log.len(),
        }
    }
}

impl<T: SimEntry> World<T> {
    pub fn new(cfg: Cfg, mask: Vec<&'static str>) -> Result<Self, Violation> {
        let mut w = World {
            cl: vec![],
            cur: 0,
            next_id: 1,
            mask,
            stats: Stats::default(),
            states: None,
            trace: None,
            #[cfg(feature = "rocks")]
            rocks: if cfg.rocks { Some(crate::rocks::RocksEnv::new()) } else { None },
        };
        IN_SIM.with(|x| *x.borrow_mut() = true);
        let n = cfg.n();
        w.add_cluster(cfg);
        for i in 0..n {
            w.start(0, i)?;
        }
        Ok(w)
    }
    fn add_cluster(&mut self, cfg: Cfg) {
        let mut c = Cluster::new(cfg);
        for nc in c.cfg.nodes.clone() {
            #[allow(unused_mut)]
            let mut d = Disk::mem();
            #[cfg(feature = "rocks")]
            if let Some(env) = &mut self.rocks {
                d.be = Backend::Rocks(env.new_disk());
            }
            c.nodes.push(Node {
                cfg: nc,
                op: None,
                disk: Rc::new(RefCell::new(d)),
                inc: 0,
                started: false,
                seen_writes: u64::MAX,
                decided: 0,
                compacted: 0,
                promise: Ballot::default(),
                acc_round: Ballot::default(),
                reconf: false,
                own: vec![],
                win: vec![],
                resyncs: 0,
                crash_pending_check: false,
                hb_ticks: 0,
                hb_sent: BTreeMap::new(),
                outbuf: vec![],
            });
        }
        self.cl.push(c);
    }
    fn v(&self, oracle: &'static str, msg: String) -> Res {
        if self.mask.contains(&oracle) {
            Err(Violation { oracle, msg })
        } else {
            Ok(())
        }
    }
    fn guarded<R>(&mut self, c: usize, i: usize, what: &str, f: impl FnOnce(&mut World<T>) -> R) -> Result<Outcome<R>, Violation> {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        let disk = self.cl[c].nodes[i].disk.clone();
        match r {
            Ok(r) => Ok(Outcome::Done(r)),
            Err(p) => {
                let injected = p.is::<CrashSignal>() || disk.borrow().err_fired.is_some();
                if p.is::<CrashSignal>() {
                    self.stats.fault("crash_at_storage_write");
                } else if let Some(k) = disk.borrow().err_fired {
                    self.stats.fault(if k == FaultKind::ReadErr { "storage_read_error" } else { "storage_write_error" });
                }
                if injected {
                    self.kill(c, i, usize::MAX);
                    Ok(Outcome::Crashed)
                } else {
                    let m = LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
                    // forget the half-updated instance
                    self.cl[c].nodes[i].op = None;
                    Err(Violation {
                        oracle: "panic",
                        msg: format!("server {} panicked in {}: {}", self.cl[c].nodes[i].cfg.pid, what, m),
                    })
                }
            }
        }
    }
    /// runs `f` on server i; a panic is an injected crash or a violation
    fn call<R>(&mut self, c: usize, i: usize, what: &str, f: impl FnOnce(&mut OmniPaxos<T, SimStorage<T>>) -> R) -> Result<Option<R>, Violation> {
        if self.cl[c].nodes[i].op.is_none() {
            return Ok(None);
        }
        let out = self.guarded(c, i, what, |w| f(w.cl[c].nodes[i].op.as_mut().unwrap()))?;
        match out {
            Outcome::Done(r) => {
                let err = self.cl[c].nodes[i].disk.borrow_mut().err_fired.take();
                if err.is_some() {
                    self.stats.fault("storage_error_survived");
                    // the server carried on after a storage error: memory and storage must still agree
                    let (d, cm, p) = {
                        let op = self.cl[c].nodes[i].op.as_ref().unwrap();
                        (op.get_decided_idx(), op.get_compacted_idx(), op.get_promise())
                    };
                    let img = self.cl[c].nodes[i].disk.borrow().image();
                    if d != img.decided || cm != img.compacted || p != img.promise.unwrap_or_default() {
                        self.v("err-out-of-step", format!("server {} continued after a storage error in {} with memory (decided {}, compacted {}, promise {:?}) != storage (decided {}, compacted {}, promise {:?})", self.cl[c].nodes[i].cfg.pid, what, d, cm, p, img.decided, img.compacted, img.promise))?;
                    }
                }
                Ok(Some(r))
            }
            Outcome::Crashed => Ok(None),
        }
    }
    fn kill(&mut self, c: usize, i: usize, keep: usize) {
        let cl = &mut self.cl[c];
        let n = cl.n();
        cl.nodes[i].op = None;
        cl.nodes[i].crash_pending_check = true;
        cl.nodes[i].outbuf.clear();
        cl.paused[i] = false;
        {
            let mut d = cl.nodes[i].disk.borrow_mut();
            d.plan = None;
            d.err_fired = None;
            #[cfg(feature = "rocks")]
            if let Backend::Rocks(r) = &mut d.be {
                r.crash();
            }
        }
        for j in 0..n {
            cl.links[j * n + i].clear();
            cl.links[i * n + j].truncate(keep);
            cl.recon[i * n + j] = false;
        }
    }
    fn start(&mut self, c: usize, i: usize) -> Result<(), Violation> {
        let (cc, nc, disk) = {
            let cl = &self.cl[c];
            (cl.cfg.cluster_config(), cl.nodes[i].cfg.clone(), cl.nodes[i].disk.clone())
        };
        let sc = nc.server_config();
        #[cfg(feature = "toml")]
        let (cc, sc) = match self.from_file(c, i, &cc)? {
            Some(l) => (l.cluster_config, ServerConfig { custom_logger: Some(crate::tomlcfg::logger()), ..l.server_config }),
            None => (cc, sc),
        };
        let out = self.guarded(c, i, "start from storage", |_| cc.build_for_server(sc, SimStorage(disk)))?;
        match out {
            Outcome::Done(Ok(op)) => {
                let nd = &mut self.cl[c].nodes[i];
                nd.op = Some(op);
                nd.inc += 1;
                nd.started = true;
                nd.seen_writes = u64::MAX;
                nd.hb_ticks = 0;
                nd.hb_sent.clear();
                nd.disk.borrow_mut().err_fired = None;
                let re = nd.crash_pending_check;
                nd.crash_pending_check = false;
                if re {
                    self.stats.hit("restart_with_state");
                }
                let b = self.cl[c].nodes[i].op.as_ref().unwrap().get_ui_states().current_ballot;
                if (b.config_id, b.priority, b.pid) != (self.cl[c].cfg.cid, nc.prio, nc.pid) {
                    self.v("settings", format!("server {} with priority {} in configuration {} starts with ballot {b:?}", nc.pid, nc.prio, self.cl[c].cfg.cid))?;
                }
                self.observe(c, i)
            }
            Outcome::Done(Err(e)) => Err(Violation {
                oracle: "panic",
                msg: format!("server {} refused to start with an accepted configuration: {}", nc.pid, e),
            }),
            Outcome::Crashed => Ok(()),
        }
    }

    /// C22: the settings of a server, read from its configuration file
    #[cfg(feature = "toml")]
    fn from_file(&mut self, c: usize, i: usize, cc: &ClusterConfig) -> Result<Option<omnipaxos::OmniPaxosConfig>, Violation> {
        let t = self.cl[c].cfg.toml;
        if t == 0 {
            return Ok(None);
        }
        let (nc, inc, disk) = {
            let nd = &self.cl[c].nodes[i];
            (nd.cfg.clone(), nd.inc, nd.disk.clone())
        };
        let seed = crate::rng::mix(t ^ crate::rng::mix(((c as u64) << 40) ^ ((inc as u64) << 8) ^ i as u64));
        let mut hits = vec![];
        let r = crate::tomlcfg::configure(seed, cc, &nc, &mut |k| hits.push(k), &mut |cfg| {
            // a refused configuration must leave the storage alone
            let (w, d) = (disk.borrow().writes, disk.clone());
            let plan = disk.borrow_mut().plan.take();
            let r = catch_unwind(AssertUnwindSafe(|| cfg.build::<T, _>(SimStorage(d)).is_err()));
            disk.borrow_mut().plan = plan;
            let r = r.map_err(|_| "building a server from an invalid configuration panics".to_string())?;
            if disk.borrow().writes != w {
                return Err("a refused configuration changed the storage".into());
            }
            Ok(r)
        });
        for k in hits {
            self.stats.fault(k);
        }
        match r {
            Ok(l) => Ok(Some(l)),
            Err(m) => {
                self.v("config", format!("server {}: {m}", nc.pid))?;
                Ok(None)
            }
        }
    }

    // ---------------------------------------------------------------- oracles after a step
    fn observe(&mut self, c: usize, i: usize) -> Res {
        let Some(op) = self.cl[c].nodes[i].op.as_ref() else { return Ok(()) };
        let pid = self.cl[c].nodes[i].cfg.pid;
        let (d, cm, p, cur) = (op.get_decided_idx(), op.get_compacted_idx(), op.get_promise(), op.get_current_leader());
        let disk = self.cl[c].nodes[i].disk.clone();
        let writes = disk.borrow().writes;
        let nd = &self.cl[c].nodes[i];
        if d == nd.decided && cm == nd.compacted && p == nd.promise && writes == nd.seen_writes {
            return Ok(());
        }
        // C02
        if d < nd.decided {
            self.v("decided-shrink", format!("server {pid}: decided length went from {} to {d}", nd.decided))?;
        }
        if cm < nd.compacted {
            self.v("decided-shrink", format!("server {pid}: compacted length went from {} to {cm}", nd.compacted))?;
        }
        let acc = disk.borrow().accepted();
        if cm > d || d > acc {
            self.v("decided-bounds", format!("server {pid}: compacted {cm}, decided {d}, log length {acc}"))?;
        }
        // C05
        if p < nd.promise {
            self.v("promise-shrink", format!("server {pid}: promise went from {:?} to {p:?}", nd.promise))?;
        }
        let dp = disk.borrow().promise().unwrap_or_default();
        if dp < p {
            self.v("promise-not-stored", format!("server {pid}: promise {p:?} but storage has {dp:?}"))?;
        }
        let ar = disk.borrow().acc_round().unwrap_or_default();
        if ar > dp || ar < nd.acc_round {
            self.v("accept-ballot", format!("server {pid}: accepted ballot {ar:?} (before {:?}), promise {dp:?}", nd.acc_round))?;
        }
        if cur.map(|x| x.0) != (if p.pid == 0 { None } else { Some(p.pid) }) {
            self.v("leader-report", format!("server {pid}: promise {p:?} but reports leader {cur:?}"))?;
        }
        self.ui(c, i)?;
        let full = self.read_decided(c, i, d)?;
        let Some(full) = full else { return Ok(()) }; // crashed in the read
        self.compare(c, i, d, cm, full)?;
        let Some(op) = self.cl[c].nodes[i].op.as_ref() else { return Ok(()) };
        // C09
        let rc = op.is_reconfigured();
        let cl = &self.cl[c];
        let at_stop = cl.stop_pos().is_some_and(|s| d > s);
        match (&rc, at_stop) {
            (Some(ss), _) => {
                if cl.refl.get(d.wrapping_sub(1)) != Some(&Slot::S(ss.clone())) {
                    self.v("reconf-report", format!("server {pid} (decided {d}) reports reconfigured to {ss:?} but the decided log says {:?}", cl.refl.get(d.wrapping_sub(1))))?;
                }
            }
            (None, true) => {
                self.v("reconf-report", format!("server {pid} has decided the stop-sign (decided {d}) but does not report it"))?;
            }
            (None, false) if cl.nodes[i].reconf => {
                self.v("reconf-report", format!("server {pid} no longer reports the reconfiguration (decided {d})"))?;
            }
            _ => {}
        }
        let nd = &mut self.cl[c].nodes[i];
        nd.reconf |= rc.is_some();
        nd.decided = nd.decided.max(d);
        nd.compacted = nd.compacted.max(cm);
        nd.promise = nd.promise.max(p);
        nd.acc_round = nd.acc_round.max(ar);
        nd.seen_writes = disk.borrow().writes;
        Ok(())
    }
    /// C21: the status report agrees with the calls and with what the servers really have
    fn ui(&self, c: usize, i: usize) -> Res {
        if !self.mask.contains(&"status") {
            return Ok(());
        }
        let cl = &self.cl[c];
        let Some(op) = cl.nodes[i].op.as_ref() else { return Ok(()) };
        let pid = cl.nodes[i].cfg.pid;
        let ui = op.get_ui_states();
        let (d, cur) = (op.get_decided_idx(), op.get_current_leader());
        if ui.decided_idx != d || ui.current_leader != cur.map(|x| x.0) {
            self.v("status", format!("server {pid}: status says decided {} leader {:?}, calls say {d} {cur:?}", ui.decided_idx, ui.current_leader))?;
        }
        if ui.current_ballot.pid != pid {
            self.v("status", format!("server {pid}: status says its ballot is {:?}", ui.current_ballot))?;
        }
        let mut seen = vec![];
        for hb in ui.heartbeats.iter() {
            let p = hb.ballot.pid;
            if p == pid || cl.idx(p).is_none() || seen.contains(&p) {
                self.v("status", format!("server {pid}: status lists heartbeats {:?}", ui.heartbeats))?;
            }
            seen.push(p);
        }
        if ui.cluster_state.heartbeats.len() != ui.heartbeats.len() || ui.cluster_state.heartbeats.iter().any(|h| !seen.contains(&h.ballot.pid)) {
            self.v("status", format!("server {pid}: status lists heartbeats {:?} and {:?}", ui.heartbeats, ui.cluster_state.heartbeats))?;
        }
        if cur == Some((pid, true)) {
            let acc = &ui.cluster_state.accepted_indexes;
            let me = acc.get(pid as usize).copied();
            let Some(me) = me else { return self.v("status", format!("leader {pid}: no accepted index of its own in {acc:?}")) };
            let b = op.get_promise();
            for nd in &cl.nodes {
                let Some(a) = acc.get(nd.cfg.pid as usize) else {
                    return self.v("status", format!("leader {pid}: accepted indexes {acc:?} have none for server {}", nd.cfg.pid));
                };
                let disk = nd.disk.borrow();
                if *a > me || (disk.acc_round() == Some(b) && *a > disk.accepted()) {
                    self.v("status", format!("leader {pid} (accepted {me}) says server {} accepted {a}, its storage has {}", nd.cfg.pid, disk.accepted()))?;
                }
            }
        }
        Ok(())
    }
    fn status(&mut self, c: usize) -> Res {
        self.full_check(c)?;
        if !self.mask.contains(&"status") {
            return Ok(());
        }
        let cl = &self.cl[c];
        let n = cl.n();
        let est = cl.established();
        let quiet = cl.links.iter().all(|l| l.is_empty());
        for i in 0..n {
            let Some(op) = cl.nodes[i].op.as_ref() else { continue };
            let pid = cl.nodes[i].cfg.pid;
            let ui = op.get_ui_states();
            let mut got: Vec<u64> = ui.heartbeats.iter().map(|h| h.ballot.pid).collect();
            got.sort();
            let mut want: Vec<u64> = (0..n).filter(|j| *j != i && cl.alive(*j) && cl.up[i * n + j]).map(|j| cl.nodes[j].cfg.pid).collect();
            want.sort();
            if got != want {
                self.v("status", format!("server {pid} has been connected to {want:?} for several election timeouts, its status shows heartbeats from {got:?}"))?;
            }
            let (Some(b), true) = (est, quiet) else { continue };
            if b.pid == pid && cl.stop_pos().is_none() && cl.nodes.iter().all(|nd| nd.decided == cl.refl.len()) {
                self.stats.hit("status_of_quiet_leader_checked");
                for (j, nd) in cl.nodes.iter().enumerate() {
                    // what a server acknowledged just before its link went down may be lost
                    if j != i && !(cl.up[i * n + j] && cl.up[j * n + i]) {
                        continue;
                    }
                    let (a, real) = (ui.cluster_state.accepted_indexes.get(nd.cfg.pid as usize).copied(), nd.disk.borrow().accepted());
                    if a != Some(real) {
                        return self.v("status", format!("quiet cluster: leader {pid} says server {} accepted {a:?}, its storage has {real}", nd.cfg.pid));
                    }
                }
            }
        }
        self.stats.hit("status_checked");
        Ok(())
    }
    fn reconf_bad(&mut self, c: usize, i: usize, sel: u64) -> Res {
        if !self.cl[c].alive(i) {
            return Ok(());
        }
        let cl = &self.cl[c];
        let pids: Vec<u64> = cl.cfg.nodes.iter().map(|n| n.pid).collect();
        let n = pids.len();
        let mut nc = ClusterConfig { configuration_id: cl.cfg.cid + 1, nodes: pids, flexible_quorum: None };
        match sel % 5 {
            0 => nc.nodes.truncate(1),
            1 => nc.configuration_id = 0,
            2 => nc.flexible_quorum = Some(FlexibleQuorum { read_quorum_size: 1, write_quorum_size: n - 1 }),
            3 => nc.flexible_quorum = Some(FlexibleQuorum { read_quorum_size: n + 1, write_quorum_size: n }),
            // 0 is not a server id
            _ => nc.nodes[sel as usize / 16 % n] = 0,
        }
        let meta = if sel % 16 < 8 { Some(vec![9]) } else { None };
        let writes = cl.nodes[i].disk.borrow().writes;
        let pid = cl.nodes[i].cfg.pid;
        let r = self.call(c, i, "reconfigure", |op| op.reconfigure(nc.clone(), meta.clone()))?;
        match r {
            None => return Ok(()),
            Some(Err(ProposeErr::ConfigError(_, x, m))) if x == nc && m == meta => {}
            Some(Err(ProposeErr::PendingReconfigConfig(x, m))) if x == nc && m == meta => {}
            Some(r) => self.v("append-result", format!("server {pid}: reconfigure with the invalid configuration {nc:?} returned {r:?}"))?,
        }
        if self.cl[c].nodes[i].disk.borrow().writes != writes {
            self.v("append-result", format!("server {pid}: a refused reconfiguration wrote to storage"))?;
        }
        self.stats.hit("invalid_reconfiguration_refused");
        self.observe(c, i)
    }
    /// the decided log through the public API, one slot per position (None: trimmed away)
    fn read_decided(&mut self, c: usize, i: usize, d: usize) -> Result<Option<Vec<Option<Slot<T>>>>, Violation> {
        let pid = self.cl[c].nodes[i].cfg.pid;
        let r = self.call(c, i, "read_decided_suffix(0)", |op| op.read_decided_suffix(0))?;
        let Some(r) = r else { return Ok(None) };
        let mut out: Vec<Option<Slot<T>>> = vec![];
        match r {
            None => {
                if d != 0 {
                    self.v("read", format!("server {pid}: decided length {d} but read_decided_suffix(0) returns nothing"))?;
                }
            }
            Some(v) => {
                let l = v.len();
                for (k, e) in v.into_iter().enumerate() {
                    match e {
                        LogEntry::Decided(e) => out.push(Some(Slot::E(e))),
                        LogEntry::Trimmed(x) if k == 0 => out.extend((0..x).map(|_| None)),
                        LogEntry::Snapshotted(s) if k == 0 => {
                            let ids = T::snap_ids(&s.snapshot);
                            if ids.len() != s.trimmed_idx {
                                self.v("snapshot", format!("server {pid}: snapshot at index {} contains {} entries: {:?}", s.trimmed_idx, ids.len(), ids))?;
                            }
                            let mut ids = ids;
                            ids.truncate(s.trimmed_idx);
                            let l = ids.len();
                            out.extend(ids.into_iter().map(|x| Some(Slot::E(T::make(x)))));
                            out.extend((l..s.trimmed_idx).map(|_| None));
                            self.stats.hit("snapshot_read");
                        }
                        LogEntry::StopSign(ss, dec) if k == l - 1 => {
                            if !dec {
                                self.v("read", format!("server {pid}: decided suffix ends with a stop-sign flagged undecided"))?;
                            }
                            out.push(Some(Slot::S(ss)));
                        }
                        e => {
                            self.v("read", format!("server {pid}: unexpected element {e:?} at {k} of the decided suffix"))?;
                            out.push(None);
                        }
                    }
                }
                if out.len() != d {
                    self.v("read", format!("server {pid}: decided length {d} but read_decided_suffix(0) spans {}", out.len()))?;
                    self.v("agreement", format!("server {pid}: decided length {d} but its decided log has {} positions", out.len()))?;
                }
            }
        }
        Ok(Some(out))
    }
    fn compare(&mut self, c: usize, i: usize, d: usize, cm: usize, full: Vec<Option<Slot<T>>>) -> Res {
        let pid = self.cl[c].nodes[i].cfg.pid;
        // own history (C02)
        for (k, s) in full.iter().enumerate() {
            if let (Some(s), Some(Some(o))) = (s, self.cl[c].nodes[i].own.get(k)) {
                if s != o {
                    self.v("decided-changed", format!("server {pid}: decided position {k} was {o:?}, now {s:?}"))?;
                }
            }
        }
        // global history (C01, C10)
        for (k, s) in full.iter().enumerate() {
            if let (Some(s), Some(r)) = (s, self.cl[c].refl.get(k)) {
                if s != r {
                    if k < cm {
                        self.v("snapshot", format!("server {pid}: snapshot at index {cm} has {s:?} at position {k}, the decided log has {r:?}"))?;
                    }
                    self.v("agreement", format!("server {pid}: decided position {k} is {s:?}, decided elsewhere as {r:?}"))?;
                }
            }
        }
        // extension
        if full.len() > self.cl[c].refl.len() && full.len() <= d {
            let from = self.cl[c].refl.len();
            for (k, s) in full.iter().enumerate().skip(from) {
                let Some(s) = s else {
                    self.v("trim-unsafe", format!("server {pid}: position {k} was trimmed before any server reported it decided"))?;
                    return Ok(());
                };
                if let Some(Slot::S(_)) = self.cl[c].refl.last() {
                    self.v("after-stop", format!("server {pid}: position {k} ({s:?}) decided after the stop-sign"))?;
                    return Ok(());
                }
                match s {
                    Slot::E(e) => {
                        if !self.cl[c].appended.contains(&e.id()) || *e != T::make(e.id()) {
                            self.v("validity", format!("server {pid}: decided position {k} holds {e:?}, which nobody appended"))?;
                        }
                        if !self.cl[c].ref_ids.insert(e.id()) && !self.cl[c].dup_possible {
                            self.v("duplicate", format!("server {pid}: entry {e:?} decided again at position {k}"))?;
                        }
                    }
                    Slot::S(ss) => {
                        if !self.cl[c].ss_requested.contains(ss) {
                            self.v("stop-validity", format!("server {pid}: decided stop-sign {ss:?} was never requested"))?;
                        }
                        self.stats.hit("stopsign_decided");
                    }
                }
                self.cl[c].refl.push(s.clone());
            }
            self.stats.hit("decided_extended");
            self.quorum_durable(c, from)?;
        }
        let own = &mut self.cl[c].nodes[i].own;
        for (k, s) in full.into_iter().enumerate() {
            if k < own.len() {
                if own[k].is_none() {
                    own[k] = s;
                }
            } else {
                own.push(s);
            }
        }
        Ok(())
    }
    /// C04 / C15: every decided position >= from is held by a write quorum of disks
    fn quorum_durable(&self, c: usize, from: usize) -> Res {
        if !self.mask.contains(&"quorum-durable") {
            return Ok(());
        }
        let cl = &self.cl[c];
        let imgs: Vec<_> = cl.nodes.iter().map(|n| n.disk.borrow().image()).collect();
        for (k, s) in cl.refl.iter().enumerate().skip(from) {
            let cnt = imgs.iter().filter(|im| Cluster::holds(im, k, s)).count();
            if cnt < cl.cfg.write_q() {
                self.v("quorum-durable", format!("decided position {k} ({s:?}) is stored on {cnt} of {} servers, write quorum is {}", cl.n(), cl.cfg.write_q()))?;
            }
        }
        Ok(())
    }
    /// storage faults that fired
    pub fn harvest(&mut self) {
        for cl in &self.cl {
            for nd in &cl.nodes {
                let f = nd.disk.borrow().fired;
                for (k, v) in ["crash_before_storage_write", "crash_after_storage_write", "storage_write_failed", "storage_read_failed"].iter().zip(f) {
                    if v > 0 {
                        *self.stats.faults.entry(k).or_default() += v;
                    }
                }
            }
        }
    }
    fn state_hash(&mut self) {
        let Some(st) = self.states.as_mut() else { return };
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for cl in &self.cl {
            let mut bs: Vec<_> = cl.nodes.iter().map(|n| b2t(&n.promise)).collect();
            bs.sort();
            bs.dedup();
            for nd in &cl.nodes {
                (nd.op.is_some(), nd.decided, nd.compacted, nd.reconf).hash(&mut h);
                bs.binary_search(&b2t(&nd.promise)).unwrap_or(0).hash(&mut h);
                nd.disk.borrow().accepted().hash(&mut h);
                nd.op.as_ref().and_then(|o| o.get_current_leader()).hash(&mut h);
            }
            cl.up.hash(&mut h);
            for l in &cl.links {
                l.len().min(3).hash(&mut h);
            }
        }
        st.push(h.finish());
    }

    // ---------------------------------------------------------------- network
    /// What is still in the application's buffer stays there, the new messages come after it.
    fn take(&mut self, c: usize, i: usize) -> Result<bool, Violation> {
        let mut buf = std::mem::take(&mut self.cl[c].nodes[i].outbuf);
        let before = buf.len();
        let tail = buf.last().map(|m| format!("{m:?}"));
        if self.call(c, i, "take_outgoing_messages", |op| op.take_outgoing_messages(&mut buf))?.is_none() {
            return Ok(false);
        }
        if before > 0 {
            self.stats.hit("taken_into_used_buffer");
            if buf.get(before - 1).map(|m| format!("{m:?}")) != tail {
                self.v("wire", format!("server {}: taking outgoing messages changed the messages that were in the buffer", self.cl[c].nodes[i].cfg.pid))?;
            }
        }
        for k in before..buf.len() {
            let m = buf[k].clone();
            self.on_wire(c, i, &m)?;
        }
        self.cl[c].nodes[i].outbuf = buf;
        Ok(true)
    }
    fn flush(&mut self, c: usize, i: usize) -> Res {
        if !self.take(c, i)? {
            return Ok(());
        }
        let buf = std::mem::take(&mut self.cl[c].nodes[i].outbuf);
        let n = self.cl[c].n();
        for m in buf {
            let m = if self.cl[c].cfg.serde {
                let bytes = match bincode::serialize(&m) {
                    Ok(b) => b,
                    Err(e) => {
                        self.v("wire", format!("message {m:?} does not serialise: {e}"))?;
                        continue;
                    }
                };
                match bincode::deserialize::<Message<T>>(&bytes) {
                    Ok(m2) => {
                        if bytes.len() % 8 == 0 && bincode::serialize(&m2).ok().as_ref() != Some(&bytes) && !cfg!(feature = "unicache") {
                            self.v("wire", format!("message {m:?} changes when serialised and back: {m2:?}"))?;
                        }
                        m2
                    }
                    Err(e) => {
                        self.v("wire", format!("message {m:?} does not deserialise: {e}"))?;
                        continue;
                    }
                }
            } else {
                m
            };
            let pid = self.cl[c].nodes[i].cfg.pid;
            if m.get_sender() != pid {
                self.v("wire", format!("server {pid} sends a message as {}", m.get_sender()))?;
            }
            if m.get_receiver() == pid {
                self.v("wire", format!("server {pid} addresses a message to itself: {m:?}"))?;
                continue;
            }
            if let Message::BLE(b) = &m {
                if let HeartbeatMsg::Request(_) = b.msg {
                    *self.cl[c].nodes[i].hb_sent.entry(b.to).or_default() += 1;
                }
            }
            let Some(j) = self.cl[c].idx(m.get_receiver()) else {
                self.v("wire", format!("server {pid} sends to unknown server {}", m.get_receiver()))?;
                continue;
            };
            let cl = &mut self.cl[c];
            if cl.up[i * n + j] && cl.alive(j) {
                cl.links[i * n + j].push_back(m);
            }
        }
        // C22: an election timeout of k means a heartbeat round every k ticks
        let nd = &self.cl[c].nodes[i];
        if nd.op.is_some() {
            let want = nd.hb_ticks / nd.cfg.el.max(1);
            let peers: Vec<u64> = self.cl[c].cfg.nodes.iter().map(|x| x.pid).filter(|p| *p != nd.cfg.pid).collect();
            for p in peers {
                let got = self.cl[c].nodes[i].hb_sent.get(&p).copied().unwrap_or(0);
                if got.abs_diff(want) > 1 {
                    let nd = &self.cl[c].nodes[i];
                    self.v("settings", format!("server {} with election timeout {} sent {got} heartbeat requests to {p} in {} ticks", nd.cfg.pid, nd.cfg.el, nd.hb_ticks))?;
                }
            }
        }
        let q: usize = self.cl[c].links.iter().map(|l| l.len()).sum();
        if q > 20_000 {
            // normal runs stay below 1000
            self.v("flood", format!("{q} messages are on the way: servers answer messages with ever more messages"))?;
        }
        Ok(())
    }
    /// C05/C08: what a server says must already be on its disk
    fn on_wire(&mut self, c: usize, i: usize, m: &Message<T>) -> Res {
        let Message::SequencePaxos(p) = m else { return Ok(()) };
        let pid = self.cl[c].nodes[i].cfg.pid;
        let disk = self.cl[c].nodes[i].disk.clone();
        let dp = || disk.borrow().promise().unwrap_or_default();
        // One retry can be left over from the promise having been sent twice. The timers are long
        // enough here that it cannot happen again and again.
        if self.cl[c].quiet && matches!(p.msg, PaxosMsg::PrepareReq(_)) && self.cl[c].cfg.nodes.iter().all(|x| x.rs >= 10) {
            self.cl[c].nodes[i].resyncs += 1;
            if self.cl[c].nodes[i].resyncs > 2 {
                self.v("resync", format!("server {pid}, following an established leader without any fault, asks again and again to have its log synchronised"))?;
            }
        }
        let owner = |n: &Ballot, what: &str| -> Res {
            if n.pid != pid {
                self.v("ballot-owner", format!("server {pid} sends {what} for ballot {n:?}"))?;
            }
            Ok(())
        };
        match &p.msg {
            PaxosMsg::Promise(pr) => {
                if dp() < pr.n {
                    self.v("promise-not-stored", format!("server {pid} promises {:?}, storage has {:?}", pr.n, dp()))?;
                }
            }
            PaxosMsg::Prepare(pr) => {
                owner(&pr.n, "Prepare")?;
                if dp() < pr.n {
                    self.v("promise-not-stored", format!("server {pid} prepares {:?}, storage has {:?}", pr.n, dp()))?;
                }
                let inc = self.cl[c].nodes[i].inc;
                let prev = *self.cl[c].ballots.entry(b2t(&pr.n)).or_insert((i, inc));
                if prev != (i, inc) {
                    self.v("ballot-reuse", format!("server {pid} (incarnation {inc}) leads with ballot {:?} already used by server index {} incarnation {}", pr.n, prev.0, prev.1))?;
                }
            }
            PaxosMsg::AcceptSync(a) => {
                owner(&a.n, "AcceptSync")?;
                self.stats.hit("msg_acceptsync");
                if let Some(s) = &a.log_sync.decided_snapshot {
                    match s {
                        omnipaxos::storage::SnapshotType::Complete(_) => self.stats.hit("sync_complete_snapshot"),
                        omnipaxos::storage::SnapshotType::Delta(_) => self.stats.hit("sync_delta_snapshot"),
                    }
                }
                if a.log_sync.stopsign.is_some() {
                    self.stats.hit("sync_with_stopsign");
                }
            }
            PaxosMsg::AcceptDecide(a) => owner(&a.n, "AcceptDecide")?,
            PaxosMsg::Decide(a) => owner(&a.n, "Decide")?,
            PaxosMsg::AcceptStopSign(a) => {
                owner(&a.n, "AcceptStopSign")?;
                self.stats.hit("msg_accept_stopsign");
            }
            PaxosMsg::Accepted(a) => {
                let d = disk.borrow();
                let ar = d.acc_round().unwrap_or_default();
                if ar < a.n || (ar == a.n && d.accepted() < a.accepted_idx) {
                    self.v("ack-not-stored", format!("server {pid} acknowledges {} entries in ballot {:?}, storage has {} in {:?}", a.accepted_idx, a.n, d.accepted(), ar))?;
                }
            }
            PaxosMsg::NotAccepted(_) => self.stats.hit("msg_notaccepted"),
            PaxosMsg::PrepareReq(_) => self.stats.hit("msg_preparereq"),
            PaxosMsg::ProposalForward(_) => self.stats.hit("msg_forward"),
            PaxosMsg::ForwardStopSign(_) => self.stats.hit("msg_forward_stopsign"),
            PaxosMsg::Compaction(_) => self.stats.hit("msg_compaction"),
        }
        Ok(())
    }
    fn deliver(&mut self, c: usize, a: usize, b: usize, k: usize) -> Res {
        let n = self.cl[c].n();
        let q = &mut self.cl[c].links[a * n + b];
        if k >= q.len() {
            return Ok(());
        }
        let m = q.remove(k).unwrap();
        if k > 0 {
            self.stats.fault("reorder");
        }
        if !self.cl[c].alive(b) {
            return Ok(());
        }
        if let Some(t) = self.trace.as_mut() {
            t.push(format!("    {} -> {}: {:?}", self.cl[c].nodes[a].cfg.pid, self.cl[c].nodes[b].cfg.pid, m));
        }
        let ballot = match &m {
            Message::SequencePaxos(p) => match &p.msg {
                PaxosMsg::AcceptSync(x) => Some(x.n),
                PaxosMsg::AcceptDecide(x) => Some(x.n),
                PaxosMsg::Decide(x) => Some(x.n),
                PaxosMsg::AcceptStopSign(x) => Some(x.n),
                _ => None,
            },
            _ => None,
        };
        let disk = self.cl[c].nodes[b].disk.clone();
        let before = match ballot {
            Some(n) if disk.borrow().promise().unwrap_or_default() > n => Some((n, disk.borrow().image())),
            _ => None,
        };
        self.call(c, b, "handle_incoming", |op| op.handle_incoming(m))?;
        if let Some((n, im)) = before {
            let after = disk.borrow().image();
            self.stats.hit("stale_leader_message");
            if after.acc_round != im.acc_round || after.decided != im.decided || after.accepted() != im.accepted() || after.ss != im.ss || after.log != im.log {
                self.v("accept-lower", format!("server {} promised {:?} but let the leader of ballot {:?} change its log", self.cl[c].nodes[b].cfg.pid, im.promise, n))?;
            }
        }
        self.observe(c, b)
    }
    fn cut(&mut self, c: usize, a: usize, b: usize, keep: usize) {
        let cl = &mut self.cl[c];
        let n = cl.n();
        for (x, y) in [(a, b), (b, a)] {
            if cl.links[x * n + y].len() > keep {
                cl.links[x * n + y].truncate(keep);
                self.stats.fault("in_flight_lost_on_cut");
            }
            cl.up[x * n + y] = false;
            cl.recon[x * n + y] = false;
        }
    }
    fn heal(&mut self, c: usize, a: usize, b: usize) {
        let cl = &mut self.cl[c];
        let n = cl.n();
        if cl.up[a * n + b] {
            return;
        }
        for (x, y) in [(a, b), (b, a)] {
            cl.up[x * n + y] = true;
            if cl.cfg.net == Net::Session && cl.alive(x) && cl.alive(y) {
                cl.recon[x * n + y] = true;
            }
        }
    }
    fn recon(&mut self, c: usize, a: usize, b: usize) -> Res {
        let n = self.cl[c].n();
        if !self.cl[c].recon[a * n + b] || !self.cl[c].alive(a) {
            return Ok(());
        }
        self.cl[c].recon[a * n + b] = false;
        let pid = self.cl[c].nodes[b].cfg.pid;
        self.call(c, a, "reconnected", |op| op.reconnected(pid))?;
        self.stats.fault("session_reconnect");
        self.observe(c, a)
    }
    fn self_recon(&mut self, c: usize, i: usize) -> Res {
        if !self.cl[c].alive(i) {
            return Ok(());
        }
        let pid = self.cl[c].nodes[i].cfg.pid;
        self.call(c, i, "reconnected", |op| op.reconnected(pid))?;
        self.observe(c, i)
    }
    fn restart(&mut self, c: usize, i: usize) -> Res {
        if self.cl[c].alive(i) || !self.cl[c].nodes[i].started {
            return Ok(());
        }
        self.stats.fault("restart");
        self.start(c, i)?;
        let cl = &mut self.cl[c];
        if cl.nodes[i].op.is_some() && cl.cfg.net == Net::Session {
            let n = cl.n();
            for j in 0..n {
                cl.links[i * n + j].clear();
                cl.links[j * n + i].clear();
                if cl.up[i * n + j] && cl.alive(j) && j != i {
                    cl.recon[j * n + i] = true;
                }
            }
        }
        Ok(())
    }
    fn append(&mut self, c: usize, i: usize) -> Result<Option<u64>, Violation> {
        if !self.cl[c].alive(i) {
            return Ok(None);
        }
        let id = self.next_id;
        self.next_id += 1;
        let e = T::make(id);
        self.cl[c].appended.insert(id);
        let has_ss = self.cl[c].nodes[i].disk.borrow().image().ss.is_some();
        let reconf = self.cl[c].nodes[i].reconf;
        let pid = self.cl[c].nodes[i].cfg.pid;
        let r = self.call(c, i, "append", |op| op.append(e))?;
        let mut ok = false;
        match r {
            None => {}
            Some(Ok(())) => {
                ok = true;
                if reconf {
                    self.v("append-result", format!("server {pid} is reconfigured but accepted an append"))?;
                }
            }
            Some(Err(ProposeErr::PendingReconfigEntry(x))) => {
                if x != T::make(id) {
                    self.v("append-result", format!("server {pid} returned another entry with the append error"))?;
                }
                if !has_ss {
                    self.v("append-result", format!("server {pid} has no stop-sign but rejected an append"))?;
                }
            }
            Some(Err(e)) => self.v("append-result", format!("server {pid}: append failed with {e:?}"))?,
        }
        self.observe(c, i)?;
        Ok(if ok { Some(id) } else { None })
    }
    fn reconf(&mut self, c: usize, i: usize, sel: u64) -> Result<bool, Violation> {
        if !self.cl[c].alive(i) {
            return Ok(false);
        }
        let cl = &self.cl[c];
        // next configuration: drop some servers, add new ones
        let mut rng = Rng::new(sel);
        let mut pids: Vec<u64> = cl.cfg.nodes.iter().map(|n| n.pid).collect();
        let max = *pids.iter().max().unwrap();
        rng.shuffle(&mut pids);
        let keep = rng.range(1, pids.len() as u64) as usize;
        pids.truncate(keep);
        let mut add = rng.range(if keep < 2 { 2 } else { 0 }, 3);
        while add > 0 && pids.len() < 6 {
            pids.push(max + add);
            add -= 1;
        }
        let n = pids.len();
        let fq = if n >= 3 && rng.chance(1, 4) { Some(FlexibleQuorum { read_quorum_size: n - 1, write_quorum_size: 2 }) } else { None };
        let nc = ClusterConfig { configuration_id: cl.cfg.cid + 1, nodes: pids, flexible_quorum: fq };
        let meta = if rng.chance(1, 2) { Some(vec![1, 2, (sel % 251) as u8]) } else { None };
        let ss = StopSign::with(nc.clone(), meta.clone());
        let has_ss = cl.nodes[i].disk.borrow().image().ss.is_some();
        let reconf = cl.nodes[i].reconf;
        let pid = cl.nodes[i].cfg.pid;
        self.cl[c].ss_requested.push(ss.clone());
        let r = self.call(c, i, "reconfigure", |op| op.reconfigure(nc.clone(), meta.clone()))?;
        let mut ok = false;
        match r {
            None => {}
            Some(Ok(())) => {
                ok = true;
                if reconf {
                    self.v("append-result", format!("server {pid} is reconfigured but accepted another reconfiguration"))?;
                }
                self.cl[c].win_ss = Some(ss);
            }
            Some(Err(ProposeErr::PendingReconfigConfig(x, m))) => {
                if x != nc || m != meta {
                    self.v("append-result", format!("server {pid} returned another configuration with the error"))?;
                }
                if !has_ss {
                    self.v("append-result", format!("server {pid} has no stop-sign but rejected a reconfiguration"))?;
                }
            }
            Some(Err(e)) => self.v("append-result", format!("server {pid}: reconfigure failed with {e:?}"))?,
        }
        self.observe(c, i)?;
        Ok(ok)
    }
    fn trim(&mut self, c: usize, i: usize, sel: Option<u64>) -> Res {
        if !self.cl[c].alive(i) || T::SNAP {
            // mixing trim and snapshots of one log is not covered by any guarantee
            return Ok(());
        }
        let (d, cm, lead) = {
            let op = self.cl[c].nodes[i].op.as_ref().unwrap();
            (op.get_decided_idx(), op.get_compacted_idx(), op.get_current_leader())
        };
        let arg = sel.map(|s| s as usize % (d + 3));
        let pid = self.cl[c].nodes[i].cfg.pid;
        let Some(r) = self.call(c, i, "trim", |op| op.trim(arg))? else { return Ok(()) };
        let cm2 = self.cl[c].nodes[i].op.as_ref().unwrap().get_compacted_idx();
        match r {
            Ok(()) => {
                self.stats.hit("trim_ok");
                if lead.map(|x| x.0) != Some(pid) {
                    self.v("trim-result", format!("server {pid} trimmed although the leader is {lead:?}"))?;
                }
                if let Some(a) = arg {
                    if a > d {
                        self.v("trim-result", format!("server {pid} accepted trim({a}) with decided length {d}"))?;
                    }
                    let stop = self.cl[c].stop_pos().unwrap_or(usize::MAX);
                    if cm2 < a.min(stop) || cm2 > cm.max(a) {
                        self.v("trim-result", format!("server {pid}: trim({a}) succeeded, compacted {cm} -> {cm2}"))?;
                    }
                }
                if cm2 > cm {
                    self.stats.hit("trim_effective");
                    for nd in &self.cl[c].nodes {
                        let im = nd.disk.borrow().image();
                        let bad = (0..cm2.min(self.cl[c].refl.len())).find(|k| !Cluster::holds(&im, *k, &self.cl[c].refl[*k]));
                        if im.accepted() < cm2 || bad.is_some() {
                            self.v("trim-unsafe", format!("server {pid} trimmed {cm2} entries but server {} has only {} entries (first wrong: {bad:?})", nd.cfg.pid, im.accepted()))?;
                        }
                    }
                }
            }
            Err(e) => {
                self.stats.hit("trim_err");
                if cm2 != cm {
                    self.v("trim-result", format!("server {pid}: trim failed with {e:?} but compacted went {cm} -> {cm2}"))?;
                }
                if let CompactionErr::NotCurrentLeader(l) = e {
                    if l == pid && self.cl[c].established().is_some() {
                        self.v("trim-result", format!("server {pid} is the leader but refuses to trim as not being it"))?;
                    }
                }
            }
        }
        self.observe(c, i)
    }
    fn snap(&mut self, c: usize, i: usize, sel: Option<u64>, local: bool) -> Res {
        if !self.cl[c].alive(i) || !T::SNAP {
            return Ok(());
        }
        let (d, cm) = {
            let op = self.cl[c].nodes[i].op.as_ref().unwrap();
            (op.get_decided_idx(), op.get_compacted_idx())
        };
        let arg = sel.map(|s| s as usize % (d + 3));
        let pid = self.cl[c].nodes[i].cfg.pid;
        let Some(r) = self.call(c, i, "snapshot", |op| op.snapshot(arg, local))? else { return Ok(()) };
        let cm2 = self.cl[c].nodes[i].op.as_ref().unwrap().get_compacted_idx();
        let stop = self.cl[c].stop_pos().unwrap_or(usize::MAX);
        match r {
            Ok(()) => {
                self.stats.hit("snapshot_ok");
                let want = arg.unwrap_or(d).min(stop).max(cm);
                if arg.is_some_and(|a| a > d) || cm2 != want {
                    self.v("snapshot", format!("server {pid}: snapshot({arg:?}) succeeded with decided length {d}; compacted {cm} -> {cm2}"))?;
                }
            }
            Err(e) => {
                if cm2 != cm || arg.is_none_or(|a| a <= d) {
                    self.v("snapshot", format!("server {pid}: snapshot({arg:?}) failed with {e:?} (decided {d}, compacted {cm} -> {cm2})"))?;
                }
            }
        }
        self.observe(c, i)
    }
    /// C12: any read call against the reference list
    fn read(&mut self, c: usize, i: usize, a: u64, b: u64, form: u8) -> Res {
        if !self.cl[c].alive(i) || !self.mask.contains(&"read") {
            return Ok(());
        }
        let pid = self.cl[c].nodes[i].cfg.pid;
        let img = self.cl[c].nodes[i].disk.borrow().image();
        let snap = self.cl[c].nodes[i].disk.borrow().snapshot().map(|s| T::snap_ids(&s));
        let d = self.cl[c].nodes[i].op.as_ref().unwrap().get_decided_idx();
        let acc = img.accepted();
        let writes = self.cl[c].nodes[i].disk.borrow().writes;
        #[derive(Debug, PartialEq, Clone)]
        enum L<T> {
            D(T),
            U(T),
            T(usize),
            S(usize, Vec<u64>),
            X(StopSign, bool),
        }
        let conv = |e: LogEntry<T>| match e {
            LogEntry::Decided(e) => L::D(e),
            LogEntry::Undecided(e) => L::U(e),
            LogEntry::Trimmed(k) => L::T(k),
            LogEntry::Snapshotted(s) => L::S(s.trimmed_idx, T::snap_ids(&s.snapshot)),
            LogEntry::StopSign(s, b) => L::X(s, b),
        };
        let comp = || match &snap {
            Some(s) => L::S(img.compacted, s.clone()),
            None => L::T(img.compacted),
        };
        let at = |k: usize| -> L<T> {
            if k < img.compacted {
                comp()
            } else if k < img.compacted + img.log.len() {
                let e = img.log[k - img.compacted].clone();
                if k < d { L::D(e) } else { L::U(e) }
            } else {
                L::X(img.ss.clone().unwrap(), d > k)
            }
        };
        // from < to <= acc expected exact; anything reaching past the log returns nothing
        let model = |from: usize, to: usize| -> Option<Vec<L<T>>> {
            if to > acc || from >= acc {
                return None;
            }
            let mut v = vec![];
            if from < img.compacted {
                v.push(comp());
            }
            for k in from.max(img.compacted)..to {
                v.push(at(k));
            }
            Some(v)
        };
        let x = a as usize % (acc + 3);
        let y = x + 1 + b as usize % (acc + 3);
        let (name, want, got): (String, Option<Vec<L<T>>>, Option<Option<Vec<LogEntry<T>>>>) = match form % 12 {
            0 => (format!("read({x})"), if x < acc { Some(vec![at(x)]) } else { None }, self.call(c, i, "read", |op| op.read(x).map(|e| vec![e]))?),
            1 => (format!("read_entries({x}..{y})"), model(x, y), self.call(c, i, "read_entries", |op| op.read_entries(x..y))?),
            2 => (format!("read_entries({x}..={})", y - 1), model(x, y), self.call(c, i, "read_entries", |op| op.read_entries(x..=y - 1))?),
            3 => (format!("read_entries(..{y})"), model(0, y), self.call(c, i, "read_entries", |op| op.read_entries(..y))?),
            4 if x >= acc => {
                // empty range
                let got = self.call(c, i, "read_entries", |op| op.read_entries(x..))?;
                if let Some(Some(v)) = got {
                    if v.iter().any(|e| matches!(e, LogEntry::Decided(_) | LogEntry::Undecided(_) | LogEntry::StopSign(..))) {
                        self.v("read", format!("server {pid}: read_entries({x}..) with log length {acc} returns {v:?}"))?;
                    }
                }
                return Ok(());
            }
            4 => (format!("read_entries({x}..)"), if acc == 0 { None } else { model(x, acc) }, self.call(c, i, "read_entries", |op| op.read_entries(x..))?),
            5 => ("read_entries(..)".into(), if acc == 0 { None } else { model(0, acc) }, self.call(c, i, "read_entries", |op| op.read_entries(..))?),
            6 => (format!("read_decided_suffix({x})"), if x < d { model(x, d) } else { None }, self.call(c, i, "read_decided_suffix", |op| op.read_decided_suffix(x))?),
            8 if x > 0 => (format!("read_entries((Excluded({}), Excluded({y})))", x - 1), model(x, y), self.call(c, i, "read_entries", |op| op.read_entries((Bound::Excluded(x - 1), Bound::Excluded(y))))?),
            9 if x > 0 => (format!("read_entries((Excluded({}), Included({})))", x - 1, y - 1), model(x, y), self.call(c, i, "read_entries", |op| op.read_entries((Bound::Excluded(x - 1), Bound::Included(y - 1))))?),
            10 if x > 0 && x < acc => (format!("read_entries((Excluded({}), Unbounded))", x - 1), model(x, acc), self.call(c, i, "read_entries", |op| op.read_entries((Bound::Excluded(x - 1), Bound::Unbounded)))?),
            11 => (format!("read_entries(..={})", y - 1), model(0, y), self.call(c, i, "read_entries", |op| op.read_entries(..=y - 1))?),
            _ => {
                // empty range: must not panic, and must not return log entries
                let got = self.call(c, i, "read_entries", |op| op.read_entries(x..x))?;
                if let Some(Some(v)) = got {
                    if v.iter().any(|e| matches!(e, LogEntry::Decided(_) | LogEntry::Undecided(_) | LogEntry::StopSign(..))) {
                        self.v("read", format!("server {pid}: read_entries({x}..{x}) returns {v:?}"))?;
                    }
                }
                return Ok(());
            }
        };
        let Some(got) = got else { return Ok(()) };
        // two elements of a result are equal exactly when they say the same
        if let Some(v) = &got {
            for (x, y) in v.iter().flat_map(|x| [(x, &v[0]), (x, v.last().unwrap())]) {
                let want = conv(x.clone()) == conv(y.clone());
                if T::same(x, y).is_some_and(|g| g != want) {
                    self.v("read", format!("server {pid}: {name} returned {x:?} and {y:?}, which compare as {}", !want))?;
                }
            }
        }
        let got = got.map(|v| v.into_iter().map(conv).collect::<Vec<_>>());
        self.stats.hit("reads_checked");
        if got != want {
            self.v("read", format!("server {pid} (log: compacted {}, {} entries, stop-sign {}, decided {d}): {name} returned {got:?}, expected {want:?}", img.compacted, img.log.len(), img.ss.is_some()))?;
        }
        if self.cl[c].nodes[i].disk.borrow().writes != writes {
            self.v("read", format!("server {pid}: {name} wrote to storage"))?;
        }
        self.observe(c, i)
    }
    fn round(&mut self, c: usize, seed: u64, sub: u8, tick: bool) -> Res {
        let n = self.cl[c].n();
        let mut rng = Rng::new(seed);
        let mut ord: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut ord);
        for &i in &ord {
            if self.cl[c].paused[i] {
                continue;
            }
            if tick {
                self.tick(c, i)?;
            }
            if self.cl[c].cfg.net == Net::Session {
                for j in 0..n {
                    if self.cl[c].recon[i * n + j] {
                        self.recon(c, i, j)?;
                    }
                }
            }
        }
        for _ in 0..sub {
            rng.shuffle(&mut ord);
            for &i in &ord {
                if !self.cl[c].paused[i] {
                    self.flush(c, i)?;
                }
            }
            let mut ls: Vec<usize> = (0..n * n).filter(|l| self.cl[c].deliverable(*l)).collect();
            if ls.is_empty() {
                break;
            }
            rng.shuffle(&mut ls);
            for l in ls {
                let k = self.cl[c].links[l].len();
                for _ in 0..k {
                    self.deliver(c, l / n, l % n, 0)?;
                }
            }
        }
        Ok(())
    }
    fn tick(&mut self, c: usize, i: usize) -> Res {
        if !self.cl[c].alive(i) {
            return Ok(());
        }
        self.stats.ticks += 1;
        self.call(c, i, "tick", |op| op.tick())?;
        self.cl[c].nodes[i].hb_ticks += 1;
        self.observe(c, i)
    }
    fn heal_all(&mut self, c: usize) -> Res {
        let n = self.cl[c].n();
        self.cl[c].probes.clear();
        self.cl[c].stall.fill(false);
        self.cl[c].paused.fill(false);
        for i in 0..n {
            self.cl[c].nodes[i].disk.borrow_mut().plan = None;
        }
        for a in 0..n {
            for b in 0..a {
                self.heal(c, a, b);
            }
        }
        for i in 0..n {
            self.restart(c, i)?;
        }
        for a in 0..n {
            for b in 0..n {
                self.recon(c, a, b)?;
            }
        }
        Ok(())
    }
    fn max_decided(&self, c: usize) -> usize {
        self.cl[c].refl.len()
    }
    fn full_check(&mut self, c: usize) -> Res {
        for i in 0..self.cl[c].n() {
            self.cl[c].nodes[i].seen_writes = u64::MAX;
            self.observe(c, i)?;
        }
        self.quorum_durable(c, 0)
    }
    fn converged(&mut self, c: usize) -> Res {
        self.full_check(c)?;
        let cl = &self.cl[c];
        let want = cl.refl.len();
        let stopped = cl.stop_pos().is_some();
        let lag: Vec<usize> = (0..cl.n())
            .filter(|i| cl.nodes[*i].op.as_ref().is_none_or(|o| o.get_decided_idx() != want))
            .collect();
        let missing: Vec<u64> = if stopped { vec![] } else { cl.probes.iter().copied().filter(|p| !cl.ref_ids.contains(p)).collect() };
        let lead = cl.leader();
        let desc = || {
            cl.nodes
                .iter()
                .map(|nd| match &nd.op {
                    None => format!("{}:down", nd.cfg.pid),
                    Some(o) => format!("{}:promise({},{},{}) {:?} decided {} log {}", nd.cfg.pid, o.get_promise().n, o.get_promise().priority, o.get_promise().pid, o.get_current_leader(), o.get_decided_idx(), nd.disk.borrow().accepted()),
                })
                .collect::<Vec<_>>()
                .join("; ")
        };
        if lag.is_empty() && missing.is_empty() {
            self.stats.hit("converged");
            return Ok(());
        }
        let Some(l) = lead else {
            return self.v("no-leader", format!("no leader after the fault-free suffix: {}", desc()));
        };
        let lb = cl.nodes[l].op.as_ref().unwrap().get_promise();
        let behind = |i: &usize| cl.nodes[*i].op.as_ref().is_some_and(|o| o.get_promise() > lb);
        // a leader with a quorum that keeps deciding while others are bound to a higher promise
        let stuck: Vec<usize> = (0..cl.n()).filter(behind).collect();
        let on_leader = cl.probes.iter().all(|p| stopped || cl.ref_ids.contains(p) || stuck.iter().any(|s| cl.nodes[*s].win.contains(p)));
        if !stuck.is_empty() && lag.iter().all(behind) && on_leader {
            return self.v("stuck-behind-promise", format!("servers bound to a higher promise than the working leader never rejoin: {}", desc()));
        }
        self.v("converge", format!("after the fault-free suffix servers {:?} lag behind {want}, undecided probes {missing:?}: {}", lag.iter().map(|i| cl.nodes[*i].cfg.pid).collect::<Vec<_>>(), desc()))
    }

    // ---------------------------------------------------------------- one act
    pub fn exec(&mut self, a: &Act) -> Res {
        // a panic outside of a guarded call (getters, message serialisation) is a violation as well
        match catch_unwind(AssertUnwindSafe(|| self.exec_inner(a))) {
            Ok(r) => r,
            Err(_) => {
                let m = LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
                Err(Violation { oracle: "panic", msg: format!("panic during {a:?}: {m}") })
            }
        }
    }
    fn exec_inner(&mut self, a: &Act) -> Res {
        self.stats.acts += 1;
        if let Some(t) = self.trace.as_mut() {
            t.push(format!("{a:?}"));
        }
        let c = self.cur;
        let n = self.cl[c].n();
        let ok = |i: &usize| *i < n;
        use Act::*;
        if !matches!(a, Tick(_) | Flush(_) | Take(_) | Del(..) | Round(..) | WinAppend(_)) {
            self.cl[c].quiet = false;
        }
        let r = match a {
            Act::Tick(i) if ok(i) => self.tick(c, *i),
            Act::Flush(i) if ok(i) => self.flush(c, *i),
            Act::Take(i) if ok(i) => self.take(c, *i).map(|_| ()),
            Act::Del(x, y) if ok(x) && ok(y) => self.deliver(c, *x, *y, 0),
            Act::DelK(x, y, k) if ok(x) && ok(y) => self.deliver(c, *x, *y, *k),
            Act::Drop(x, y, k) if ok(x) && ok(y) => {
                if self.cl[c].links[x * n + y].remove(*k).is_some() {
                    self.stats.fault("message_lost");
                }
                Ok(())
            }
            Act::Dup(x, y, k) if ok(x) && ok(y) => {
                let q = &mut self.cl[c].links[x * n + y];
                if let Some(m) = q.get(*k).cloned() {
                    if let Message::SequencePaxos(p) = &m {
                        if matches!(p.msg, PaxosMsg::ProposalForward(_)) {
                            self.cl[c].dup_possible = true;
                        }
                    }
                    self.cl[c].links[x * n + y].push_back(m);
                    self.stats.fault("message_duplicated");
                }
                Ok(())
            }
            Act::Cut(x, y, k) if ok(x) && ok(y) && x != y => {
                if self.cl[c].up[x * n + y] {
                    self.stats.fault("link_cut");
                    self.cut(c, *x, *y, *k);
                }
                Ok(())
            }
            Act::Heal(x, y) if ok(x) && ok(y) && x != y => {
                self.heal(c, *x, *y);
                Ok(())
            }
            Act::Recon(x, y) if ok(x) && ok(y) => self.recon(c, *x, *y),
            Act::SelfRecon(i) if ok(i) => self.self_recon(c, *i),
            Act::Crash(i, k) if ok(i) => {
                if self.cl[c].alive(*i) {
                    self.stats.fault("crash");
                    self.kill(c, *i, *k);
                }
                Ok(())
            }
            Act::Arm(i, k, w) if ok(i) => {
                if self.cl[c].alive(*i) {
                    self.cl[c].nodes[*i].disk.borrow_mut().plan = Some((*k, *w));
                }
                Ok(())
            }
            Act::Restart(i) if ok(i) => self.restart(c, *i),
            Act::Append(i) if ok(i) => self.append(c, *i).map(|_| ()),
            Act::Reconf(i, s) if ok(i) => self.reconf(c, *i, *s).map(|_| ()),
            Act::Trim(i, s) if ok(i) => self.trim(c, *i, *s),
            Act::Snap(i, s, l) if ok(i) => self.snap(c, *i, *s, *l),
            Act::Tbl(i) if ok(i) => {
                self.stats.fault("takeover_request");
                self.call(c, *i, "try_become_leader", |op| op.try_become_leader())?;
                self.observe(c, *i)
            }
            Act::Prio(i, p) if ok(i) => {
                self.call(c, *i, "set_priority", |op| op.set_priority(*p))?;
                self.observe(c, *i)
            }
            Act::Read(i, x, y, f) if ok(i) => self.read(c, *i, *x, *y, *f),
            Act::Round(s, k) => self.round(c, *s, *k, true),
            Act::Exchange(s, k) => self.round(c, *s, *k, false),
            Act::Graph(g) => {
                for x in 0..n {
                    for y in 0..x {
                        if g >> (y * n + x) & 1 == 1 {
                            self.heal(c, x, y);
                        } else if self.cl[c].up[x * n + y] {
                            self.stats.fault("link_cut");
                            self.cut(c, x, y, 0);
                        }
                    }
                }
                for x in 0..n {
                    for y in 0..n {
                        self.recon(c, x, y)?;
                    }
                }
                Ok(())
            }
            Act::Stall(x, y) if ok(x) && ok(y) && x != y => {
                self.stats.fault("link_stalled");
                self.cl[c].stall[x * n + y] = true;
                Ok(())
            }
            Act::Unstall(x, y) if ok(x) && ok(y) => {
                self.cl[c].stall[x * n + y] = false;
                Ok(())
            }
            Act::Pause(i) if ok(i) => {
                self.stats.fault("server_stalled");
                self.cl[c].paused[*i] = true;
                Ok(())
            }
            Act::Resume(i) if ok(i) => {
                self.cl[c].paused[*i] = false;
                Ok(())
            }
            Act::HealAll => self.heal_all(c),
            Act::Probe => {
                for i in 0..n {
                    if let Some(id) = self.append(c, i)? {
                        self.cl[c].probes.push(id);
                        self.cl[c].nodes[i].win.push(id);
                    }
                }
                Ok(())
            }
            Act::StartNext(k) => self.start_next(*k),
            Act::Use(k) => {
                if *k < self.cl.len() {
                    self.cur = *k;
                }
                Ok(())
            }
            Act::Barrier => Ok(()),
            Act::Converged => self.converged(c),
            Act::Mark => {
                self.cl[c].mark = self.max_decided(c);
                Ok(())
            }
            Act::Grown => {
                let m = self.max_decided(c);
                if self.cl[c].stop_pos().is_none() {
                    self.stats.hit("progress_checked");
                    if m <= self.cl[c].mark {
                        let d: Vec<_> = self.cl[c].nodes.iter().map(|nd| match &nd.op { None => format!("{}:down", nd.cfg.pid), Some(o) => format!("{}:promise {:?} leader {:?} decided {}", nd.cfg.pid, b2t(&o.get_promise()), o.get_current_leader(), o.get_decided_idx()) }).collect();
                        let up: Vec<_> = (0..n * n).filter(|l| l / n < l % n && self.cl[c].up[*l]).map(|l| (self.cl[c].nodes[l / n].cfg.pid, self.cl[c].nodes[l % n].cfg.pid)).collect();
                        return self.v("progress", format!("nothing decided (length {m}); links up {up:?}; {}", d.join("; ")));
                    }
                }
                Ok(())
            }
            Act::Window => {
                self.full_check(c)?;
                let b = self.cl[c].established();
                let cl = &mut self.cl[c];
                cl.win = if cl.stop_pos().is_none() && cl.nodes.iter().all(|nd| nd.disk.borrow().image().ss.is_none()) { b } else { None };
                cl.win_ss = None;
                cl.win_snap = None;
                for nd in cl.nodes.iter_mut() {
                    nd.win.clear();
                    nd.resyncs = 0;
                }
                cl.quiet = cl.win.is_some();
                self.stats.hit(if cl.win.is_some() { "healthy_window" } else { "no_healthy_window" });
                Ok(())
            }
            Act::WinAppend(i) if ok(i) => {
                if self.cl[c].win.is_some() {
                    if let Some(id) = self.append(c, *i)? {
                        self.cl[c].nodes[*i].win.push(id);
                    }
                }
                Ok(())
            }
            Act::WinCheck => self.win_check(c),
            Act::Leads(i) if ok(i) => {
                if self.cl[c].win.is_some() {
                    self.full_check(c)?;
                    let pid = self.cl[c].nodes[*i].cfg.pid;
                    match self.cl[c].established() {
                        Some(b) if b.pid == pid => {
                            self.stats.hit("takeover_checked");
                            self.cl[c].win = Some(b);
                            self.cl[c].quiet = true;
                        }
                        x => self.v("takeover", format!("server {pid} was asked to take over in a healthy cluster; leader now {x:?}, views {:?}", self.cl[c].nodes.iter().map(|nd| nd.op.as_ref().map(|o| o.get_current_leader())).collect::<Vec<_>>()))?,
                    }
                }
                Ok(())
            }
            Act::PrioLeads => {
                // a server whose election timer runs faster may legitimately be elected first
                let nodes = &self.cl[c].cfg.nodes;
                if nodes.iter().any(|x| x.el != nodes[0].el) {
                    return Ok(());
                }
                let want = self.cl[c].cfg.nodes.iter().max_by_key(|x| (x.prio, x.pid)).unwrap().pid;
                self.stats.hit("priority_checked");
                match self.cl[c].established() {
                    Some(b) if b.pid == want => Ok(()),
                    x => self.v("priority", format!("servers started together without faults; highest priority is server {want}, leader is {x:?}, views {:?}", self.cl[c].nodes.iter().map(|nd| nd.op.as_ref().map(|o| o.get_current_leader())).collect::<Vec<_>>())),
                }
            }
            Act::WinTrim => {
                if self.cl[c].win.is_some() && !T::SNAP {
                    if let Some(l) = self.cl[c].leader() {
                        let (d, pid) = (self.cl[c].nodes[l].op.as_ref().unwrap().get_decided_idx(), self.cl[c].nodes[l].cfg.pid);
                        let all = self.cl[c].nodes.iter().all(|nd| nd.decided == d);
                        let Some(r) = self.call(c, l, "trim", |op| op.trim(Some(d)))? else { return Ok(()) };
                        self.observe(c, l)?;
                        self.stats.hit("window_trim");
                        if all && r.is_err() {
                            self.v("trim-refused", format!("every server has decided {d} entries but leader {pid} refuses trim({d}): {r:?}"))?;
                        }
                        if r.is_ok() && self.cl[c].nodes[l].compacted != d {
                            self.v("trim-result", format!("leader {pid}: trim({d}) succeeded, compacted {}", self.cl[c].nodes[l].compacted))?;
                        }
                        self.cl[c].win_snap = Some(self.cl[c].nodes[l].compacted);
                    }
                }
                Ok(())
            }
            Act::WinSnap(i) if ok(i) => {
                if self.cl[c].win.is_some() && T::SNAP {
                    self.snap(c, *i, None, false)?;
                    self.cl[c].win_snap = Some(self.cl[c].nodes[*i].compacted);
                }
                Ok(())
            }
            Act::WinSnapCheck => {
                self.full_check(c)?;
                if let (Some(k), true) = (self.cl[c].win_snap, self.cl[c].win.is_some()) {
                    self.stats.hit("window_compaction_checked");
                    for nd in &self.cl[c].nodes {
                        if nd.compacted < k {
                            self.v("compaction-spread", format!("compaction to {k} in a healthy cluster did not reach server {} (compacted {})", nd.cfg.pid, nd.compacted))?;
                        }
                    }
                }
                Ok(())
            }
            Act::WinReconf(i, s) if ok(i) => {
                if self.cl[c].win.is_some() {
                    self.cl[c].win_ss = None;
                    self.reconf(c, *i, *s)?;
                }
                Ok(())
            }
            Act::WinReconfCheck => {
                self.full_check(c)?;
                if self.cl[c].win.is_some() && self.cl[c].win_ss.is_some() {
                    self.stats.hit("reconfiguration_checked");
                    for i in 0..n {
                        let nd = &self.cl[c].nodes[i];
                        let Some(op) = &nd.op else { continue };
                        let rc = op.is_reconfigured();
                        if rc.is_none() {
                            self.v("reconf-progress", format!("reconfiguration requested in a healthy cluster is not decided at server {} (decided {}, {:?})", nd.cfg.pid, nd.decided, self.cl[c].win_ss))?;
                        }
                    }
                }
                Ok(())
            }
            Act::FullCheck => self.full_check(c),
            Act::Shrink(keep, with_leader, s) => {
                if self.cl[c].win.is_some() {
                    let mut rng = Rng::new(*s);
                    let l = self.cl[c].leader().unwrap_or(0);
                    let mut v: Vec<usize> = (0..n).filter(|i| *i != l).collect();
                    rng.shuffle(&mut v);
                    let mut surv: Vec<usize> = if *with_leader { vec![l] } else { vec![] };
                    surv.extend(v);
                    surv.truncate(*keep);
                    for i in 0..n {
                        if !surv.contains(&i) {
                            self.stats.fault("crash");
                            self.kill(c, i, 0);
                        }
                    }
                    self.stats.hit("shrunk_to_quorum");
                }
                Ok(())
            }
            Act::EarlyAppend(i) if ok(i) => {
                let blind = self.cl[c].nodes[*i].op.as_ref().is_some_and(|o| o.get_current_leader().is_none());
                if let Some(id) = self.append(c, *i)? {
                    self.cl[c].early.push((*i, id, blind));
                }
                Ok(())
            }
            Act::EarlyReconf(i, s) if ok(i) => {
                let at = self.cl[c].early.len();
                let blind = self.cl[c].nodes[*i].op.as_ref().is_some_and(|o| o.get_current_leader().is_none());
                if self.reconf(c, *i, *s)? {
                    // where it came in the stream of its server, if it was the only one
                    let first = self.cl[c].early_ss.is_none();
                    self.cl[c].early_ss = Some((*i, if first && blind { at } else { 0 }));
                }
                Ok(())
            }
            Act::EarlyCheck => {
                self.full_check(c)?;
                let cl = &self.cl[c];
                // proposals may be lost when the leader changes; this is about the first leader only
                if cl.ballots.len() != 1 {
                    self.stats.hit("early_skipped_leader_change");
                    return Ok(());
                }
                if !cl.early.is_empty() || cl.early_ss.is_some() {
                    self.stats.hit("early_proposals_checked");
                }
                // an entry may legitimately lose the race against a stop-sign requested elsewhere
                let (ss_at, ss_before) = cl.early_ss.unwrap_or((usize::MAX, 0));
                let mut last: BTreeMap<usize, usize> = BTreeMap::new();
                for (k, (at, id, blind)) in cl.early.iter().enumerate() {
                    let pos = cl.refl.iter().position(|s| matches!(s, Slot::E(e) if e.id() == *id));
                    let must = cl.early_ss.is_none() || (*at == ss_at && k < ss_before && *blind);
                    match pos {
                        None if must => return self.v("early-lost", format!("entry {id}, appended at server {} before a leader was known in a fault-free run, was never decided", cl.nodes[*at].cfg.pid)),
                        None => {}
                        Some(pos) if *blind => {
                            if last.get(at).is_some_and(|l| *l > pos) {
                                return self.v("early-order", format!("entry {id}, appended at server {} later than another, both before a leader was known there, in a fault-free run, was decided before it", cl.nodes[*at].cfg.pid));
                            }
                            last.insert(*at, pos);
                        }
                        _ => {}
                    }
                }
                if cl.early_ss.is_some() && cl.stop_pos().is_none() {
                    return self.v("early-lost", "a reconfiguration requested before a leader was known in a fault-free run was never decided".to_string());
                }
                Ok(())
            }
            Act::Status => self.status(c),
            Act::ReconfBad(i, s) if ok(i) => self.reconf_bad(c, *i, *s),
            _ => Ok(()),
        };
        self.state_hash();
        r
    }
    fn win_check(&mut self, c: usize) -> Res {
        self.full_check(c)?;
        let Some(b) = self.cl[c].win else { return Ok(()) };
        self.stats.hit("window_checked");
        let cl = &self.cl[c];
        for nd in &cl.nodes {
            let mut last = None;
            for id in &nd.win {
                let pos = cl.refl.iter().position(|s| matches!(s, Slot::E(e) if e.id() == *id));
                let Some(pos) = pos else {
                    if cl.stop_pos().is_some() {
                        continue;
                    }
                    return self.v("window-lost", format!("entry {id} appended at server {} in a healthy cluster was not decided in time; {:?}", nd.cfg.pid, cl.nodes.iter().map(|x| (x.cfg.pid, x.decided, x.disk.borrow().accepted())).collect::<Vec<_>>()));
                };
                if last.is_some_and(|l| l > pos) {
                    return self.v("window-order", format!("entry {id} appended at server {} later than another was decided before it", nd.cfg.pid));
                }
                last = Some(pos);
            }
        }
        let lag: Vec<_> = cl.nodes.iter().filter(|nd| nd.decided != cl.refl.len()).map(|nd| (nd.cfg.pid, nd.decided)).collect();
        if !lag.is_empty() {
            return self.v("window-lag", format!("in a healthy cluster with {} decided entries these servers lag: {lag:?}", cl.refl.len()));
        }
        match cl.established() {
            Some(b2) if b2 == b => Ok(()),
            x => self.v("leader-changed", format!("healthy cluster without faults or requests: leader ballot was {b:?}, now {x:?}")),
        }
    }
    fn start_next(&mut self, k: usize) -> Res {
        let c = self.cur;
        let Some(Slot::S(ss)) = self.cl[c].refl.last().cloned() else { return Ok(()) };
        if self.cl.len() == c + 1 {
            let old = &self.cl[c].cfg;
            let nodes = ss
                .next_config
                .nodes
                .iter()
                .map(|p| {
                    let mut x = old.nodes.iter().find(|x| x.pid == *p).cloned().unwrap_or(old.join.clone());
                    x.pid = *p;
                    x
                })
                .collect();
            let cfg = Cfg {
                cid: ss.next_config.configuration_id,
                nodes,
                fq: ss.next_config.flexible_quorum.map(|q| (q.read_quorum_size, q.write_quorum_size)),
                ..old.clone()
            };
            self.add_cluster(cfg);
        }
        let nc = c + 1;
        let m = self.cl[nc].n();
        let k = k % m;
        if !self.cl[nc].nodes[k].started {
            self.stats.hit("next_config_server_started");
            self.start(nc, k)?;
        }
        Ok(())
    }
}
