//! The simulated disk: a real storage implementation behind the library's Storage trait, with a
//! write counter and armed faults. The Disk outlives the server that uses it.
use crate::entry::SimEntry;
use omnipaxos::{
    ballot_leader_election::Ballot,
    storage::{StopSign, Storage, StorageOp, StorageResult},
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum FaultKind {
    CrashBefore,
    CrashAfter,
    WriteErr,
    ReadErr,
}
/// panic payload of an injected crash
pub struct CrashSignal;

#[derive(Debug)]
pub struct InjectedErr;
impl std::error::Error for InjectedErr {}
impl std::fmt::Display for InjectedErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected storage error")
    }
}

pub struct Disk<T: SimEntry> {
    pub be: Backend<T>,
    pub writes: u64,
    pub reads: u64,
    /// (kind, remaining operations until it fires)
    pub plan: Option<(FaultKind, u64)>,
    pub err_fired: Option<FaultKind>,
    pub fired: [u64; 4],
}
pub enum Backend<T: SimEntry> {
    Mem(MemoryStorage<T>),
    #[cfg(feature = "rocks")]
    Rocks(crate::rocks::RocksDisk<T>),
}

macro_rules! be {
    ($d:expr, $s:ident, $e:expr) => {
        match &$d.be {
            Backend::Mem($s) => $e,
            #[cfg(feature = "rocks")]
            Backend::Rocks(r) => {
                let $s = r.db();
                $e
            }
        }
    };
}
macro_rules! be_mut {
    ($d:expr, $s:ident, $e:expr) => {
        match &mut $d.be {
            Backend::Mem($s) => $e,
            #[cfg(feature = "rocks")]
            Backend::Rocks(r) => {
                let $s = r.db_mut();
                $e
            }
        }
    };
}

/// What the disk holds, read without faults.
#[derive(Clone, Debug, PartialEq)]
pub struct Image<T> {
    pub promise: Option<Ballot>,
    pub acc_round: Option<Ballot>,
    pub decided: usize,
    pub compacted: usize,
    pub log: Vec<T>,
    pub ss: Option<StopSign>,
}
impl<T> Image<T> {
    pub fn accepted(&self) -> usize {
        self.compacted + self.log.len() + self.ss.is_some() as usize
    }
}

impl<T: SimEntry> Disk<T> {
    pub fn mem() -> Self {
        Disk {
            be: Backend::Mem(MemoryStorage::default()),
            writes: 0,
            reads: 0,
            plan: None,
            err_fired: None,
            fired: [0; 4],
        }
    }
    pub fn image(&self) -> Image<T> {
        be!(self, s, {
            let compacted = s.get_compacted_idx().unwrap();
            let len = s.get_log_len().unwrap();
            Image {
                promise: s.get_promise().unwrap(),
                acc_round: s.get_accepted_round().unwrap(),
                decided: s.get_decided_idx().unwrap(),
                compacted,
                log: s.get_entries(compacted, compacted + len).unwrap(),
                ss: s.get_stopsign().unwrap(),
            }
        })
    }
    pub fn promise(&self) -> Option<Ballot> {
        be!(self, s, s.get_promise().unwrap())
    }
    pub fn acc_round(&self) -> Option<Ballot> {
        be!(self, s, s.get_accepted_round().unwrap())
    }
    pub fn accepted(&self) -> usize {
        be!(
            self,
            s,
            s.get_compacted_idx().unwrap()
                + s.get_log_len().unwrap()
                + s.get_stopsign().unwrap().is_some() as usize
        )
    }
    pub fn snapshot(&self) -> Option<T::Snapshot> {
        be!(self, s, s.get_snapshot().unwrap())
    }
    fn write<R>(
        &mut self,
        f: impl FnOnce(&mut Self) -> StorageResult<R>,
    ) -> StorageResult<R> {
        self.writes += 1;
        let fire = match &mut self.plan {
            Some((k, left)) if *k != FaultKind::ReadErr => {
                if *left == 0 {
                    Some(*k)
                } else {
                    *left -= 1;
                    None
                }
            }
            _ => None,
        };
        if let Some(k) = fire {
            self.plan = None;
            self.fired[k as usize] += 1;
            match k {
                FaultKind::CrashBefore => std::panic::panic_any(CrashSignal),
                FaultKind::CrashAfter => {
                    let _ = f(self);
                    std::panic::panic_any(CrashSignal)
                }
                FaultKind::WriteErr => {
                    self.err_fired = Some(k);
                    return Err(Box::new(InjectedErr));
                }
                FaultKind::ReadErr => unreachable!(),
            }
        }
        f(self)
    }
    fn read_fault(&mut self) -> bool {
        self.reads += 1;
        match &mut self.plan {
            Some((FaultKind::ReadErr, left)) => {
                if *left == 0 {
                    self.plan = None;
                    self.fired[FaultKind::ReadErr as usize] += 1;
                    self.err_fired = Some(FaultKind::ReadErr);
                    true
                } else {
                    *left -= 1;
                    false
                }
            }
            _ => false,
        }
    }
}

pub struct SimStorage<T: SimEntry>(pub Rc<RefCell<Disk<T>>>);

macro_rules! w {
    ($self:ident, $s:ident, $e:expr) => {
        $self.0.borrow_mut().write(|d| be_mut!(d, $s, $e))
    };
}
macro_rules! r {
    ($self:ident, $s:ident, $e:expr) => {{
        let mut d = $self.0.borrow_mut();
        if d.read_fault() {
            return Err(Box::new(InjectedErr));
        }
        be!(d, $s, $e)
    }};
}
impl<T: SimEntry> Storage<T> for SimStorage<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        w!(self, s, s.write_atomically(ops))
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        w!(self, s, s.append_entry(entry))
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        w!(self, s, s.append_entries(entries))
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        w!(self, s, s.append_on_prefix(from_idx, entries))
    }
    fn set_promise(&mut self, n_prom: Ballot) -> StorageResult<()> {
        w!(self, s, s.set_promise(n_prom))
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        w!(self, s, s.set_decided_idx(ld))
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        r!(self, s, s.get_decided_idx())
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        w!(self, s, s.set_accepted_round(na))
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        r!(self, s, s.get_accepted_round())
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        r!(self, s, s.get_entries(from, to))
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        r!(self, s, s.get_log_len())
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        r!(self, s, s.get_suffix(from))
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        r!(self, s, s.get_promise())
    }
    fn set_stopsign(&mut self, ss: Option<StopSign>) -> StorageResult<()> {
        w!(self, s, s.set_stopsign(ss))
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        r!(self, s, s.get_stopsign())
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        w!(self, s, s.trim(idx))
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        w!(self, s, s.set_compacted_idx(idx))
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        r!(self, s, s.get_compacted_idx())
    }
    fn set_snapshot(&mut self, snapshot: Option<T::Snapshot>) -> StorageResult<()> {
        w!(self, s, s.set_snapshot(snapshot))
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        r!(self, s, s.get_snapshot())
    }
}
