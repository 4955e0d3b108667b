//! Property -> oracles and explored space.
use crate::{gen::{Prof, Scen, Scen::*}, world::Net};

const SESSION: &[Net] = &[Net::Session];
const BOTH: &[Net] = &[Net::Session, Net::Session, Net::Lossy];
const LOSSY: &[Net] = &[Net::Lossy];
const SMALL: &[usize] = &[2, 3, 3, 3, 4, 5, 5];
const WIDE: &[usize] = &[3, 3, 4, 5, 5, 6, 7];

fn base(id: &'static str) -> Prof {
    Prof { id, oracles: vec![], scen: &[(1, Mixed)], sizes: SMALL, snap_pct: 50, fq_pct: 15, nets: BOTH, batch_pct: 40, gap_pct: 20, rocks: false, runs: 80000 }
}
const GENERAL: &[(u64, Scen)] = &[(4, Mixed), (2, CrashHeavy), (2, Lag), (1, Reconf), (1, Loss)];

pub fn get(id: &str) -> Option<Prof> {
    Some(match id {
        "C01" => Prof { oracles: vec!["agreement", "decided-changed"], scen: GENERAL, ..base("C01") },
        "C02" => Prof { oracles: vec!["decided-shrink", "decided-bounds", "decided-changed"], scen: GENERAL, ..base("C02") },
        "C03" => Prof { oracles: vec!["validity", "duplicate", "wire", "agreement", "decided-changed", "window-order"], scen: &[(4, Mixed), (2, CrashHeavy), (2, Lag), (1, Reconf), (2, Loss), (1, Windows)], ..base("C03") },
        "C04" => Prof { oracles: vec!["quorum-durable", "agreement", "decided-changed"], scen: GENERAL, fq_pct: 35, ..base("C04") },
        "C05" => Prof { oracles: vec!["promise-shrink", "promise-not-stored", "accept-ballot", "leader-report", "ballot-owner", "ballot-reuse", "accept-lower", "ack-not-stored"], scen: &[(3, Mixed), (4, CrashHeavy), (1, Lag), (1, Reconf), (1, Loss)], ..base("C05") },
        "C06" => Prof { oracles: vec!["progress"], scen: &[(1, Partial)], sizes: WIDE, nets: SESSION, ..base("C06") },
        "C07" => Prof { oracles: vec!["converge", "no-leader", "stuck-behind-promise"], scen: &[(4, Mixed), (2, CrashHeavy), (2, Lag)], nets: SESSION, ..base("C07") },
        "C08" => Prof { oracles: vec!["err-out-of-step", "ack-not-stored", "promise-shrink", "promise-not-stored", "decided-shrink", "decided-bounds", "decided-changed", "agreement", "converge", "no-leader"], scen: &[(6, CrashHeavy), (1, Reconf)], nets: SESSION, ..base("C08") },
        "C09" => Prof { oracles: vec!["reconf-report", "after-stop", "stop-validity", "append-result", "reconf-progress", "converge", "agreement", "decided-shrink"], scen: &[(1, Reconf)], nets: SESSION, ..base("C09") },
        "C10" => Prof { oracles: vec!["snapshot", "compaction-spread", "agreement", "converge", "decided-changed", "duplicate"], scen: &[(4, Lag), (2, Mixed), (1, CrashHeavy), (1, Windows), (1, Reconf)], snap_pct: 100, nets: SESSION, ..base("C10") },
        "C11" => Prof { oracles: vec!["trim-result", "trim-unsafe", "trim-refused", "compaction-spread", "converge", "agreement", "no-leader"], scen: &[(4, Lag), (2, Windows), (1, Mixed), (1, CrashHeavy)], snap_pct: 0, gap_pct: 50, nets: SESSION, ..base("C11") },
        "C12" => Prof { oracles: vec!["read"], scen: &[(2, Mixed), (3, Lag), (2, Reconf), (1, Windows), (1, CrashHeavy)], nets: SESSION, ..base("C12") },
        "C13" => Prof { oracles: vec!["window-lost", "window-lag", "window-order", "agreement", "validity", "duplicate", "decided-shrink"], scen: &[(3, Windows), (2, Mixed), (1, Reconf), (1, Lag)], batch_pct: 100, nets: SESSION, ..base("C13") },
        "C14" => Prof { oracles: vec!["agreement", "converge", "no-leader"], scen: &[(4, Loss), (1, Mixed)], nets: LOSSY, ..base("C14") },
        "C15" => Prof { oracles: vec!["agreement", "quorum-durable", "progress", "converge", "no-leader", "decided-changed", "decided-shrink"], scen: &[(3, Quorums), (2, Partial), (3, Mixed), (1, Lag)], sizes: WIDE, fq_pct: 100, nets: SESSION, ..base("C15") },
        "C17" => Prof { oracles: vec!["agreement", "decided-shrink", "decided-changed", "promise-shrink", "converge", "snapshot", "ack-not-stored", "quorum-durable", "read", "decided-bounds", "promise-not-stored", "accept-ballot", "no-leader", "reconf-report", "duplicate", "validity"], scen: &[(2, Mixed), (2, CrashHeavy), (1, Lag), (1, Reconf)], sizes: &[3], nets: SESSION, rocks: true, runs: 2400, ..base("C17") },
        "C18" => Prof { oracles: vec!["agreement", "validity", "wire", "converge", "no-leader", "duplicate", "window-lost", "window-order"], scen: &[(3, Mixed), (2, Lag), (1, CrashHeavy), (1, Reconf), (1, Windows), (1, Loss)], ..base("C18") },
        "C19" => Prof { oracles: vec!["takeover", "priority", "leader-changed", "agreement", "decided-shrink", "decided-changed", "window-lost", "window-order"], scen: &[(3, Windows), (2, Startup)], nets: SESSION, ..base("C19") },
        "C20" => Prof { oracles: vec!["resync", "window-lost", "window-order", "window-lag", "early-lost", "early-order", "duplicate"], scen: &[(3, Windows), (2, Startup)], nets: SESSION, ..base("C20") },
        "C21" => Prof { oracles: vec!["status", "leader-report", "wire"], scen: &[(3, Windows), (2, Partial), (2, Quorums), (2, Mixed), (1, Reconf), (1, Lag)], gap_pct: 50, nets: SESSION, ..base("C21") },
        "C22" => Prof { oracles: vec!["config", "settings", "agreement", "decided-changed", "converge", "no-leader"], scen: &[(3, Mixed), (1, CrashHeavy), (1, Startup), (1, Reconf)], fq_pct: 40, gap_pct: 40, nets: SESSION, ..base("C22") },
        _ => return None,
    })
}

pub fn real_components(id: &str) -> Vec<&'static str> {
    let mut v = vec!["OmniPaxos (public API)", "SequencePaxos leader/follower", "BallotLeaderElection", "InternalStorage + StateCache", "MemoryStorage (behind the fault-injecting Storage wrapper)"];
    if id == "C17" || id == "C16" {
        v.push("PersistentStorage + RocksDB");
    }
    if id == "C22" {
        v.push("OmniPaxosConfig::with_toml, validation, toml and serde parsing, real files in a scratch directory");
    }
    if id == "C18" {
        v.push("UniCache LRU and LFU, derive macro");
    }
    v.push("bincode message serialisation (one third of the runs)");
    v
}
