//! Storage refinement (C17) and crash durability (C16): the real MemoryStorage and
//! PersistentStorage are driven by seeded operation sequences with kills, torn and lost
//! write-ahead-log tails, full disks and failing serialisation, and compared after every step with
//! a small reference storage.
use crate::{
    rng::{mix, Rng},
    rocks::{compact, config, copy_dir, Scratch},
    run::run_seed,
};
use omnipaxos::{
    ballot_leader_election::Ballot,
    storage::{Entry, Snapshot, StopSign, Storage, StorageOp},
    util::LogEntry,
    ClusterConfig, OmniPaxosConfig, ServerConfig,
};
use omnipaxos_storage::{
    memory_storage::MemoryStorage,
    persistent_storage::PersistentStorage,
};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    time::{Duration, Instant},
};

const POISON: u64 = u64::MAX;

/// content is a function of the id; some are larger than a block of the write-ahead log
#[derive(Clone, Debug, PartialEq, Deserialize)]
pub struct StoreE {
    id: u64,
    body: Vec<u8>,
}
impl Serialize for StoreE {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeStruct};
        if self.id == POISON {
            return Err(S::Error::custom("injected serialisation error"));
        }
        let mut st = s.serialize_struct("StoreE", 2)?;
        st.serialize_field("id", &self.id)?;
        st.serialize_field("body", &self.body)?;
        st.end()
    }
}
fn ent(id: u64) -> StoreE {
    let h = mix(id);
    let n = match h % 12 {
        0 => (h >> 8) % 3000,
        1 => 0,
        2 if h >> 8 & 7 == 0 => 33_000 + (h >> 16) % 3000,
        _ => (h >> 8) % 40,
    };
    StoreE { id, body: (0..n).map(|k| mix(h ^ k / 64) as u8).collect() }
}
fn ents(v: &[u64]) -> Vec<StoreE> {
    v.iter().map(|i| ent(*i)).collect()
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StoreSnap {
    ids: Vec<u64>,
}
impl Snapshot<StoreE> for StoreSnap {
    fn create(e: &[StoreE]) -> Self {
        StoreSnap { ids: e.iter().map(|e| e.id).collect() }
    }
    fn merge(&mut self, d: Self) {
        self.ids.extend(d.ids)
    }
    fn use_snapshots() -> bool {
        true
    }
}
impl Entry for StoreE {
    type Snapshot = StoreSnap;
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Append(u64),
    Many(Vec<u64>),
    /// overwrite from compacted + k
    Prefix(u64, Vec<u64>),
    Promise(u32, u64),
    Acc(u32, u64),
    Decided(u64),
    /// trim k entries and set the compacted index
    Compact(u64),
    /// compact k beyond the end, then continue the log there (what a received snapshot does)
    Jump(u64, Vec<u64>),
    Stop(Option<u64>),
    Snap(Option<Vec<u64>>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    One(Op),
    Atomic(Vec<Op>),
    Get(u64, u64),
    CleanReopen,
    Kill,
    /// like One/Atomic, but the k-th entry fails to serialise
    Poison(Vec<Op>, bool),
    /// the disk is full after that many more bytes
    Full(Vec<Op>, u64),
    /// examine that many torn or cut tails of the write-ahead log of a copy, seeded
    Tails(u64, u64),
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Model {
    promise: Option<Ballot>,
    acc: Option<Ballot>,
    decided: usize,
    compacted: usize,
    log: Vec<u64>,
    ss: Option<StopSign>,
    snap: Option<StoreSnap>,
}
fn bal(n: u32, pid: u64) -> Ballot {
    Ballot { config_id: (n % 3 + 1), n, priority: n % 5, pid }
}
fn stop(x: u64) -> StopSign {
    let nodes = (1..=(x % 5 + 2)).map(|k| k * (1 + x % 3)).collect();
    StopSign::with(
        ClusterConfig { configuration_id: (x % 7) as u32 + 2, nodes, flexible_quorum: None },
        match x % 3 {
            0 => None,
            1 => Some(vec![]),
            _ => Some((0..(x % 50) as u8).collect()),
        },
    )
}
impl Model {
    fn end(&self) -> usize {
        self.compacted + self.log.len()
    }
    /// the operations as the storage sees them; `protocol` keeps decided entries untouched
    fn apply(&mut self, op: &Op, protocol: bool) -> Vec<StorageOp<StoreE>> {
        match op {
            Op::Append(i) => {
                self.log.push(*i);
                vec![StorageOp::AppendEntry(ent(*i))]
            }
            Op::Many(v) => {
                self.log.extend(v);
                vec![StorageOp::AppendEntries(ents(v))]
            }
            Op::Prefix(k, v) => {
                let mut from = self.compacted + *k as usize % (self.log.len() + 1);
                if protocol {
                    from = from.max(self.decided.min(self.end()));
                }
                self.log.truncate(from - self.compacted);
                self.log.extend(v);
                vec![StorageOp::AppendOnPrefix(from, ents(v))]
            }
            Op::Promise(n, p) => {
                self.promise = Some(bal(*n, *p));
                vec![StorageOp::SetPromise(bal(*n, *p))]
            }
            Op::Acc(n, p) => {
                self.acc = Some(bal(*n, *p));
                vec![StorageOp::SetAcceptedRound(bal(*n, *p))]
            }
            Op::Decided(k) => {
                self.decided = if protocol { self.decided + *k as usize % (self.end() - self.decided + 1) } else { *k as usize };
                vec![StorageOp::SetDecidedIndex(self.decided)]
            }
            Op::Compact(k) => {
                let max = if protocol { self.decided - self.compacted } else { self.log.len() };
                let k = *k as usize % (max + 1);
                self.log.drain(..k);
                self.compacted += k;
                vec![StorageOp::Trim(self.compacted), StorageOp::SetCompactedIdx(self.compacted)]
            }
            Op::Jump(k, v) => {
                let to = self.end() + if *k >= 970 { 65_530 } else { *k as usize % 6 };
                self.compacted = to;
                self.log = v.clone();
                let mut r = vec![StorageOp::Trim(to), StorageOp::SetCompactedIdx(to)];
                if protocol {
                    self.decided = to;
                    r.insert(0, StorageOp::SetDecidedIndex(to));
                }
                r.push(StorageOp::AppendOnPrefix(to, ents(v)));
                r
            }
            Op::Stop(s) => {
                self.ss = s.map(stop);
                vec![StorageOp::SetStopsign(self.ss.clone())]
            }
            Op::Snap(s) => {
                self.snap = s.clone().map(|ids| StoreSnap { ids });
                vec![StorageOp::SetSnapshot(self.snap.clone())]
            }
        }
    }
}
fn direct<S: Storage<StoreE>>(s: &mut S, op: StorageOp<StoreE>) -> Result<(), String> {
    match op {
        StorageOp::AppendEntry(e) => s.append_entry(e),
        StorageOp::AppendEntries(e) => s.append_entries(e),
        StorageOp::AppendOnPrefix(i, e) => s.append_on_prefix(i, e),
        StorageOp::SetPromise(b) => s.set_promise(b),
        StorageOp::SetDecidedIndex(i) => s.set_decided_idx(i),
        StorageOp::SetAcceptedRound(b) => s.set_accepted_round(b),
        StorageOp::SetCompactedIdx(i) => s.set_compacted_idx(i),
        StorageOp::Trim(i) => s.trim(i),
        StorageOp::SetStopsign(x) => s.set_stopsign(x),
        StorageOp::SetSnapshot(x) => s.set_snapshot(x),
    }
    .map_err(|e| e.to_string())
}
fn dup(op: &StorageOp<StoreE>) -> StorageOp<StoreE> {
    match op {
        StorageOp::AppendEntry(e) => StorageOp::AppendEntry(e.clone()),
        StorageOp::AppendEntries(e) => StorageOp::AppendEntries(e.clone()),
        StorageOp::AppendOnPrefix(i, e) => StorageOp::AppendOnPrefix(*i, e.clone()),
        StorageOp::SetPromise(b) => StorageOp::SetPromise(*b),
        StorageOp::SetDecidedIndex(i) => StorageOp::SetDecidedIndex(*i),
        StorageOp::SetAcceptedRound(b) => StorageOp::SetAcceptedRound(*b),
        StorageOp::SetCompactedIdx(i) => StorageOp::SetCompactedIdx(*i),
        StorageOp::Trim(i) => StorageOp::Trim(*i),
        StorageOp::SetStopsign(x) => StorageOp::SetStopsign(x.clone()),
        StorageOp::SetSnapshot(x) => StorageOp::SetSnapshot(x.clone()),
    }
}
type R<T> = Result<T, String>;
/// everything a storage returns
fn look<S: Storage<StoreE>>(s: &S) -> R<Model> {
    let e = |e: Box<dyn std::error::Error>| format!("getter failed: {e}");
    let compacted = s.get_compacted_idx().map_err(e)?;
    let len = s.get_log_len().map_err(e)?;
    let all = s.get_entries(compacted, compacted + len).map_err(e)?;
    let suf = s.get_suffix(compacted).map_err(e)?;
    if all != suf {
        return Err(format!("get_suffix({compacted}) has {} entries, get_entries({compacted}, {}) {}", suf.len(), compacted + len, all.len()));
    }
    if all.len() != len {
        return Err(format!("log length {len} but {} entries", all.len()));
    }
    for x in &all {
        if *x != ent(x.id) {
            return Err(format!("entry {} was corrupted", x.id));
        }
    }
    Ok(Model {
        promise: s.get_promise().map_err(e)?,
        acc: s.get_accepted_round().map_err(e)?,
        decided: s.get_decided_idx().map_err(e)?,
        compacted,
        log: all.iter().map(|x| x.id).collect(),
        ss: s.get_stopsign().map_err(e)?,
        snap: s.get_snapshot().map_err(e)?,
    })
}
fn show(m: &Model) -> String {
    format!("decided {} compacted {} log {:?} promise {:?} acc {:?} stop {:?} snap {:?}", m.decided, m.compacted, m.log, m.promise.map(|b| (b.n, b.pid)), m.acc.map(|b| (b.n, b.pid)), m.ss.as_ref().map(|s| s.next_config.configuration_id), m.snap.as_ref().map(|s| s.ids.len()))
}
fn same<S: Storage<StoreE>>(s: &S, m: &Model, what: &str) -> R<()> {
    let got = catch_unwind(AssertUnwindSafe(|| look(s))).unwrap_or_else(|_| Err("a getter panicked".into())).map_err(|e| format!("{what}: {e}"))?;
    if got != *m {
        return Err(format!("{what}: storage has [{}], should have [{}]", show(&got), show(m)));
    }
    Ok(())
}
fn open_at(dir: &Path) -> R<PersistentStorage<StoreE>> {
    catch_unwind(AssertUnwindSafe(|| PersistentStorage::open(config(dir)))).map_err(|_| format!("opening the storage panicked: {}", crate::world::last_panic()))
}
fn wal(dir: &Path) -> Option<PathBuf> {
    let mut v: Vec<PathBuf> = fs::read_dir(dir).ok()?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "log")).collect();
    v.sort();
    v.pop()
}
fn fsize_limit(cur: Option<u64>) {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = cur.unwrap_or(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Cnt {
    pub faults: BTreeMap<String, u64>,
    pub writes: u64,
    pub reopened_states: u64,
}
impl Cnt {
    fn hit(&mut self, k: &str) {
        *self.faults.entry(k.into()).or_default() += 1;
    }
}

struct Exec {
    mem: MemoryStorage<StoreE>,
    db: Option<PersistentStorage<StoreE>>,
    dir: PathBuf,
    sc: Scratch,
    m: Model,
    /// model states since the database was opened, one per completed write
    hist: Vec<Model>,
    /// durability run: operations stay within the protocol and only atomic calls are used
    protocol: bool,
    opens: u64,
    cnt: Cnt,
}
impl Exec {
    fn new(protocol: bool) -> R<Self> {
        let mut sc = Scratch::new();
        let dir = sc.sub();
        Ok(Exec { mem: MemoryStorage::default(), db: Some(open_at(&dir)?), dir, sc, m: Model::default(), hist: vec![Model::default()], protocol, opens: 0, cnt: Cnt::default() })
    }
    fn check(&self, what: &str) -> R<()> {
        if !self.protocol {
            same(&self.mem, &self.m, &format!("memory storage after {what}"))?;
        }
        same(self.db.as_ref().unwrap(), &self.m, &format!("persistent storage after {what}"))
    }
    fn completed(&mut self) {
        self.cnt.writes += 1;
        self.hist.push(self.m.clone());
    }
    fn kill(&mut self) -> R<()> {
        let to = self.sc.sub();
        copy_dir(&self.dir, &to);
        self.db = None;
        let _ = fs::remove_dir_all(&self.dir);
        self.dir = to;
        self.reopen()
    }
    fn reopen(&mut self) -> R<()> {
        self.db = None;
        self.db = Some(open_at(&self.dir)?);
        self.opens += 1;
        if self.opens % 2 == 0 {
            self.check("reopening")?;
            self.db = None;
            compact(&self.dir);
            self.db = Some(open_at(&self.dir)?);
        }
        self.hist = vec![self.m.clone()];
        Ok(())
    }
    /// starts a server on the storage: it must come up with that state
    fn server(&mut self, db: PersistentStorage<StoreE>, m: &Model, what: &str) -> R<PersistentStorage<StoreE>> {
        // the stop-sign position has to be consistent for a server, which random sequences do not guarantee
        let cfg = OmniPaxosConfig {
            cluster_config: ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None },
            server_config: ServerConfig { pid: 1, ..Default::default() },
        };
        let m = m.clone();
        let r = catch_unwind(AssertUnwindSafe(move || -> R<()> {
            let op = cfg.build(db).map_err(|e| format!("{e:?}"))?;
            if op.get_decided_idx() != m.decided {
                return Err(format!("restarted server decided {} instead of {}", op.get_decided_idx(), m.decided));
            }
            if op.get_compacted_idx() != m.compacted {
                return Err(format!("restarted server compacted {} instead of {}", op.get_compacted_idx(), m.compacted));
            }
            if op.get_promise() != m.promise.unwrap_or_default() {
                return Err(format!("restarted server promised {:?} instead of {:?}", op.get_promise(), m.promise));
            }
            if m.log.is_empty() {
                return Ok(());
            }
            let got = op.read_entries(m.compacted..m.end()).unwrap_or_default();
            if got.len() != m.log.len() {
                return Err(format!("restarted server has {} entries instead of {}", got.len(), m.log.len()));
            }
            for (k, e) in got.iter().enumerate() {
                let (id, dec) = match e {
                    LogEntry::Decided(e) => (e.id, true),
                    LogEntry::Undecided(e) => (e.id, false),
                    x => return Err(format!("restarted server reads {x:?}")),
                };
                if id != m.log[k] || dec != (m.compacted + k < m.decided) {
                    return Err(format!("restarted server reads entry {id} decided {dec} at {}", m.compacted + k));
                }
            }
            Ok(())
        }));
        match r {
            Err(_) => Err(format!("{what}: restarted server panicked")),
            Ok(Err(e)) => Err(format!("{what}: {e}")),
            Ok(Ok(())) => open_at(&self.dir),
        }
    }
    fn tails(&mut self, n: u64, seed: u64) -> R<()> {
        let mut rng = Rng::new(seed);
        let Some(w) = wal(&self.dir) else { return Ok(()) };
        let len = fs::metadata(&w).map_err(|e| e.to_string())?.len();
        let name = w.file_name().unwrap().to_owned();
        for _ in 0..n {
            let at = match rng.below(4) {
                0 => len.saturating_sub(rng.below(64)),
                1 => len,
                _ => rng.below(len + 1),
            };
            let to = self.sc.sub();
            copy_dir(&self.dir, &to);
            let f = to.join(&name);
            let mut bytes = fs::read(&f).map_err(|e| e.to_string())?;
            bytes.truncate(at as usize);
            let torn = rng.chance(1, 3);
            if torn {
                let k = rng.below(40) + 1;
                let zero = rng.chance(1, 2);
                bytes.extend((0..k).map(|_| if zero { 0 } else { rng.next() as u8 }));
            }
            fs::write(&f, &bytes).map_err(|e| e.to_string())?;
            self.cnt.hit(if torn { "wal_torn_tail" } else if at < len { "wal_lost_tail" } else { "kill" });
            self.cnt.reopened_states += 1;
            let what = format!("write-ahead log cut at byte {at} of {len}{}", if torn { " with a torn tail" } else { "" });
            let db = open_at(&to).map_err(|e| format!("{what}: {e}"))?;
            let got = catch_unwind(AssertUnwindSafe(|| look(&db))).unwrap_or_else(|_| Err("a getter panicked".into())).map_err(|e| format!("{what}: {e}"))?;
            if at >= len {
                if got != self.m {
                    return Err(format!("{what}: reopened storage has [{}], should have [{}]", show(&got), show(&self.m)));
                }
            } else if !self.hist.contains(&got) {
                return Err(format!("{what}: reopened storage has [{}], which no prefix of the {} completed writes gives; the last one gives [{}]", show(&got), self.hist.len() - 1, show(&self.m)));
            }
            let old = std::mem::replace(&mut self.dir, to.clone());
            let r = if rng.chance(1, 2) && got.ss.is_none() { self.server(db, &got, &what).map(drop) } else { drop(db); Ok(()) };
            self.dir = old;
            let _ = fs::remove_dir_all(&to);
            r?;
        }
        Ok(())
    }
    fn ops(&mut self, ops: &[Op]) -> Vec<StorageOp<StoreE>> {
        let p = self.protocol;
        ops.iter().flat_map(|o| self.m.apply(o, p)).collect()
    }
    fn step(&mut self, s: &Step) -> R<()> {
        match s {
            Step::One(op) => {
                // a jump is only valid as one atomic write
                let ops = self.ops(std::slice::from_ref(op));
                let single = ops.len() == 1 && (!self.protocol || !matches!(op, Op::Prefix(..)));
                let two = ops.len() == 2 && !self.protocol;
                let what = format!("{op:?}");
                let (mem, db) = (&mut self.mem, self.db.as_mut().unwrap());
                catch_unwind(AssertUnwindSafe(|| -> R<()> {
                    if single || two {
                        for o in ops {
                            direct(mem, dup(&o)).map_err(|e| format!("memory storage: {what} failed: {e}"))?;
                            direct(db, o).map_err(|e| format!("persistent storage: {what} failed: {e}"))?;
                        }
                    } else {
                        mem.write_atomically(ops.iter().map(dup).collect()).map_err(|e| format!("memory storage: {what} failed: {e}"))?;
                        db.write_atomically(ops).map_err(|e| format!("persistent storage: {what} failed: {e}"))?;
                    }
                    Ok(())
                }))
                .unwrap_or_else(|_| Err(format!("{what} panicked")))?;
                self.completed();
                self.check(&what)
            }
            Step::Atomic(v) => {
                let ops = self.ops(v);
                let what = format!("atomic {v:?}");
                let (mem, db) = (&mut self.mem, self.db.as_mut().unwrap());
                catch_unwind(AssertUnwindSafe(|| -> R<()> {
                    mem.write_atomically(ops.iter().map(dup).collect()).map_err(|e| format!("memory storage: {what} failed: {e}"))?;
                    db.write_atomically(ops).map_err(|e| format!("persistent storage: {what} failed: {e}"))
                }))
                .unwrap_or_else(|_| Err(format!("{what} panicked")))?;
                self.completed();
                self.check(&what)
            }
            Step::Get(a, b) => {
                let n = self.m.log.len() + 3;
                let (mut x, mut y) = (*a as usize % n, *b as usize % n);
                if x > y {
                    std::mem::swap(&mut x, &mut y);
                }
                let c = self.m.compacted;
                let want: Vec<u64> = self.m.log.get(x..y).map(|s| s.to_vec()).unwrap_or_default();
                let suf: Vec<u64> = self.m.log.get(x..).map(|s| s.to_vec()).unwrap_or_default();
                let t = |nm: &str, s: &dyn Storage<StoreE>| -> R<()> {
                    let g = catch_unwind(AssertUnwindSafe(|| (s.get_entries(c + x, c + y).map_err(|e| e.to_string()), s.get_suffix(c + x).map_err(|e| e.to_string())))).map_err(|_| format!("{nm}: get_entries({}, {}) panicked", c + x, c + y))?;
                    let e: Vec<u64> = g.0.map_err(|e| format!("{nm}: get_entries({}, {}) failed: {e}", c + x, c + y))?.iter().map(|e| e.id).collect();
                    let f: Vec<u64> = g.1.map_err(|e| format!("{nm}: get_suffix({}) failed: {e}", c + x))?.iter().map(|e| e.id).collect();
                    if e != want {
                        return Err(format!("{nm}: get_entries({}, {}) returned {e:?}, not {want:?}", c + x, c + y));
                    }
                    if f != suf {
                        return Err(format!("{nm}: get_suffix({}) returned {f:?}, not {suf:?}", c + x));
                    }
                    Ok(())
                };
                if !self.protocol {
                    t("memory storage", &self.mem)?;
                }
                t("persistent storage", self.db.as_ref().unwrap())
            }
            Step::CleanReopen => {
                self.reopen()?;
                self.cnt.hit("clean_reopen");
                self.check("reopening")
            }
            Step::Kill => {
                self.kill()?;
                self.cnt.hit("kill");
                self.check("kill and reopen")
            }
            Step::Poison(v, atomic) => {
                let before = self.m.clone();
                let mut ops = self.ops(v);
                self.m = before;
                // the last entry of the last append fails
                let mut hit = false;
                for o in ops.iter_mut().rev() {
                    match o {
                        StorageOp::AppendEntry(e) => e.id = POISON,
                        StorageOp::AppendEntries(e) | StorageOp::AppendOnPrefix(_, e) if !e.is_empty() => e.last_mut().unwrap().id = POISON,
                        _ => continue,
                    }
                    hit = true;
                    break;
                }
                if !hit {
                    return Ok(());
                }
                let what = format!("failed write of {v:?}");
                let db = self.db.as_mut().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if *atomic || ops.len() != 1 || matches!(ops[0], StorageOp::AppendOnPrefix(..)) {
                        db.write_atomically(ops).map_err(|e| e.to_string())
                    } else {
                        direct(db, ops.remove(0))
                    }
                }))
                .map_err(|_| format!("{what} panicked"))?;
                if r.is_ok() {
                    return Err(format!("{what} was reported as successful"));
                }
                self.cnt.hit("serialisation_error");
                self.check(&what)
            }
            Step::Full(v, k) => {
                let before = self.m.clone();
                let ops = self.ops(v);
                let what = format!("write of {v:?} on a full disk");
                let Some(w) = wal(&self.dir) else { return Ok(()) };
                let len = fs::metadata(&w).map_err(|e| e.to_string())?.len();
                let memops: Vec<_> = ops.iter().map(dup).collect();
                let db = self.db.as_mut().unwrap();
                fsize_limit(Some(len + k));
                let r = catch_unwind(AssertUnwindSafe(|| db.write_atomically(ops).map_err(|e| e.to_string())));
                fsize_limit(None);
                match r {
                    Err(_) => return Err(format!("{what} panicked")),
                    Ok(Ok(())) => {
                        let _ = self.mem.write_atomically(memops);
                        self.completed();
                        return self.check(&what);
                    }
                    Ok(Err(_)) => (),
                }
                self.m = before;
                self.cnt.hit("disk_full");
                self.check(&what)?;
                self.kill()?;
                self.check(&format!("{what}, then kill and reopen"))
            }
            Step::Tails(n, seed) => self.tails(*n, *seed),
        }
    }
}

fn gen_op(r: &mut Rng, id: &mut u64, ballot: &mut u32) -> Op {
    let mut ids = |r: &mut Rng, n: u64| -> Vec<u64> {
        (0..r.below(n))
            .map(|_| {
                *id += 1;
                *id
            })
            .collect()
    };
    match r.below(20) {
        0..=2 => Op::Append(ids(r, 1).pop().unwrap_or_else(|| r.below(1 << 20) + (1 << 30))),
        3..=6 => Op::Many(ids(r, 6)),
        7..=9 => Op::Prefix(r.below(1000), ids(r, 5)),
        10 | 11 => {
            *ballot += r.below(3) as u32;
            Op::Promise(*ballot, r.below(5) + 1)
        }
        12 => Op::Acc(*ballot, r.below(5) + 1),
        13 | 14 => Op::Decided(r.below(1000)),
        15 | 16 => Op::Compact(r.below(1000)),
        17 => Op::Jump(r.below(1000), ids(r, 4)),
        18 => Op::Stop(if r.chance(1, 2) { Some(r.below(1000)) } else { None }),
        _ => Op::Snap(if r.chance(5, 6) { Some(ids(r, 8)) } else { None }),
    }
}
fn gen_steps(seed: u64, protocol: bool) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let (mut id, mut ballot) = (0u64, 1u32);
    let n = 4 + r.below(if protocol { 30 } else { 60 });
    let mut v = vec![];
    // some logs are long enough for positions and ballots of more than one byte
    if r.chance(1, 8) {
        let k = 240 + r.below(40);
        v.push(Step::One(Op::Many((0..k).map(|x| id + 1 + x).collect())));
        id += k;
        ballot = *r.pick(&[1, 250, 65_530]);
    }
    for _ in 0..n {
        let several = |r: &mut Rng, id: &mut u64, b: &mut u32| -> Vec<Op> { (0..1 + r.below(5)).map(|_| gen_op(r, id, b)).collect() };
        let s = match r.below(100) {
            0..=44 => Step::One(gen_op(&mut r, &mut id, &mut ballot)),
            45..=69 => Step::Atomic(several(&mut r, &mut id, &mut ballot)),
            70..=81 => Step::Get(r.below(1000), r.below(1000)),
            82..=83 => Step::CleanReopen,
            84..=86 => Step::Kill,
            87..=91 => Step::Poison(several(&mut r, &mut id, &mut ballot), r.chance(1, 2)),
            92..=94 => Step::Full(several(&mut r, &mut id, &mut ballot), r.below(60)),
            _ => {
                if protocol {
                    Step::Tails(4, r.next())
                } else {
                    Step::Get(r.below(1000), r.below(1000))
                }
            }
        };
        v.push(s);
    }
    if protocol {
        v.push(Step::Tails(10, r.next()));
    } else {
        v.push(Step::Kill);
    }
    v
}
fn run(steps: &[Step], protocol: bool) -> (Option<(usize, String)>, Cnt) {
    let mut x = match Exec::new(protocol) {
        Ok(x) => x,
        Err(e) => return (Some((0, e)), Cnt::default()),
    };
    for (k, s) in steps.iter().enumerate() {
        if let Err(e) = x.step(s) {
            return (Some((k, e)), x.cnt.clone());
        }
    }
    (None, x.cnt.clone())
}

pub fn owns(id: &str) -> bool {
    id == "C16"
}
fn protocol(id: &str) -> bool {
    id == "C16"
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    cnt: Cnt,
    digests: Vec<u64>,
    nontrivial: Vec<u64>,
    found: Option<(u64, String)>,
    samples: Vec<serde_json::Value>,
    capped: bool,
}
/// one single-threaded process: file size limits are per process
pub fn worker(id: &str, seed: u64, first: u64, step: u64, runs: u64, cap: Duration) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    crate::world::IN_SIM.with(|x| *x.borrow_mut() = true);
    let t0 = Instant::now();
    let mut o = WorkerOut::default();
    let mut i = first;
    while i < runs {
        if t0.elapsed() > cap {
            o.capped = true;
            break;
        }
        let steps = gen_steps(run_seed(seed, id, i), protocol(id));
        let (v, c) = run(&steps, protocol(id));
        o.runs += 1;
        for (k, n) in &c.faults {
            *o.cnt.faults.entry(k.clone()).or_default() += n;
        }
        o.cnt.writes += c.writes;
        o.cnt.reopened_states += c.reopened_states;
        let mut h = 0u64;
        for b in format!("{steps:?}").bytes() {
            h = mix(h ^ b as u64);
        }
        o.digests.push(h);
        if c.writes > 2 && !c.faults.is_empty() {
            o.nontrivial.push(h);
        }
        if i < 2 {
            o.samples.push(json!({"run": i, "steps": steps.len(), "first_steps": steps.iter().take(12).map(|s| format!("{s:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>()}));
        }
        if let Some((_, e)) = v {
            o.found = Some((i, e));
            break;
        }
        i += step;
    }
    println!("{}", serde_json::to_string(&o).unwrap());
}

pub struct StoreOut {
    pub cov: serde_json::Value,
    pub runs: u64,
    /// run and replay file content
    pub viol: Option<serde_json::Value>,
}
pub fn explore(id: &str, seed: u64, runs: u64, cap: Duration) -> StoreOut {
    let exe = std::env::current_exe().unwrap();
    let n = 8u64;
    let kids: Vec<_> = (0..n)
        .map(|k| {
            std::process::Command::new(&exe)
                .args(["store-worker", id, &seed.to_string(), &k.to_string(), &n.to_string(), &runs.to_string(), &cap.as_secs().to_string()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .expect("cannot start worker")
        })
        .collect();
    let (mut tot, mut dig, mut non) = (WorkerOut::default(), HashSet::new(), HashSet::new());
    let mut died = None;
    for (k, kid) in kids.into_iter().enumerate() {
        let out = kid.wait_with_output().expect("worker");
        let line = String::from_utf8_lossy(&out.stdout).lines().last().unwrap_or("").to_string();
        match serde_json::from_str::<WorkerOut>(&line) {
            Err(_) => died = Some((k, out.status, String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>())),
            Ok(w) => {
                tot.runs += w.runs;
                for (f, c) in w.cnt.faults {
                    *tot.cnt.faults.entry(f).or_default() += c;
                }
                tot.cnt.writes += w.cnt.writes;
                tot.cnt.reopened_states += w.cnt.reopened_states;
                dig.extend(w.digests);
                non.extend(w.nontrivial);
                tot.samples.extend(w.samples);
                tot.capped |= w.capped;
                if let Some(f) = w.found {
                    if tot.found.as_ref().is_none_or(|g| f.0 < g.0) {
                        tot.found = Some(f);
                    }
                }
            }
        }
    }
    if let Some((k, st, err)) = died {
        if tot.found.is_none() {
            eprintln!("storage worker {k} died: {st} {err}");
            std::process::exit(2);
        }
    }
    let viol = tot.found.map(|(i, e)| {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        }
        println!("storage run {i} (seed {seed}): {e}");
        let (steps, msg) = minimise(gen_steps(run_seed(seed, id, i), protocol(id)), protocol(id), Duration::from_secs(60));
        println!("minimised to {} steps: {msg}", steps.len());
        json!({"mode": "store", "property": id, "seed": seed, "run": i, "protocol": protocol(id), "oracle": "storage", "message": msg, "steps": steps})
    });
    StoreOut {
        runs: tot.runs,
        viol,
        cov: json!({
            "evaluations": tot.runs, "distinct_nontrivial": non.len(), "samples": tot.samples,
            "rule": "one evaluation is one seeded sequence of storage operations and faults on the real storage; distinct by its content; non-trivial if at least three writes completed and at least one fault fired",
            "storage_writes": tot.cnt.writes, "faults_injected": tot.cnt.faults, "distinct_interleavings": dig.len(),
            "crash_images_reopened": tot.cnt.reopened_states, "stopped_by_time_cap": tot.capped,
        }),
    }
}
fn minimise(steps: Vec<Step>, protocol: bool, budget: Duration) -> (Vec<Step>, String) {
    let end = Instant::now() + budget;
    let Some((k, mut msg)) = run(&steps, protocol).0 else { return (steps, "does not replay".into()) };
    let mut steps = steps;
    steps.truncate(k + 1);
    let mut chunk = (steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < steps.len() && Instant::now() < end {
            let mut c = steps.clone();
            c.drain(i..(i + chunk).min(steps.len()));
            match run(&c, protocol).0 {
                Some((k, m)) if !c.is_empty() => {
                    c.truncate(k + 1);
                    steps = c;
                    msg = m;
                }
                _ => i += chunk,
            }
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    (steps, msg)
}
pub fn do_replay(j: &serde_json::Value) -> i32 {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let steps: Vec<Step> = serde_json::from_value(j["steps"].clone()).expect("bad replay file");
    match run(&steps, j["protocol"].as_bool().unwrap_or(false)).0 {
        Some((k, m)) => {
            println!("step {k}: {m}");
            if m == j["message"].as_str().unwrap_or("") {
                println!("reproduced exactly");
                1
            } else {
                println!("a different violation: file has {}", j["message"]);
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}
