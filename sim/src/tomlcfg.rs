//! Configuration files (C22): every server of a run is configured from a TOML file on a simulated
//! config disk that also gets torn, garbled and lost; a small reference model says what each file
//! means.
use crate::{rng::*, world::NodeCfg};
use omnipaxos::{util::FlexibleQuorum, ClusterConfig, OmniPaxosConfig, ServerConfig};
use serde::Deserialize;
use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
};

// ------------------------------------------------------------------------ the reference model
#[derive(Clone, Debug, PartialEq, Default, Deserialize)]
#[serde(default)]
struct RConfig {
    cluster_config: RCluster,
    server_config: RServer,
}
#[derive(Clone, Debug, PartialEq, Default, Deserialize)]
#[serde(default)]
struct RCluster {
    configuration_id: u32,
    nodes: Vec<u64>,
    flexible_quorum: Option<RQuorum>,
}
#[derive(Clone, Debug, PartialEq, Deserialize)]
struct RQuorum {
    read_quorum_size: usize,
    write_quorum_size: usize,
}
#[derive(Clone, Debug, PartialEq, Deserialize)]
#[serde(default)]
struct RServer {
    pid: u64,
    election_tick_timeout: u64,
    resend_message_tick_timeout: u64,
    buffer_size: usize,
    batch_size: usize,
    flush_batch_tick_timeout: u64,
    leader_priority: u32,
    logger_file_path: Option<String>,
}
impl Default for RServer {
    fn default() -> Self {
        // documented defaults are written out, the others are the library's own
        let d = ServerConfig::default();
        RServer {
            pid: 0,
            election_tick_timeout: d.election_tick_timeout,
            resend_message_tick_timeout: d.resend_message_tick_timeout,
            buffer_size: d.buffer_size,
            batch_size: 1,
            flush_batch_tick_timeout: d.flush_batch_tick_timeout,
            leader_priority: 0,
            logger_file_path: None,
        }
    }
}
impl RConfig {
    /// the documented rules
    fn cluster_ok(&self) -> bool {
        let c = &self.cluster_config;
        let n = c.nodes.len() as u128;
        let q = c.flexible_quorum.as_ref().is_none_or(|q| {
            let (r, w) = (q.read_quorum_size as u128, q.write_quorum_size as u128);
            r + w > n && (2..=n).contains(&r) && (2..=n).contains(&w) && r >= w
        });
        n > 1 && c.configuration_id != 0 && !c.nodes.contains(&0) && q
    }
    fn server_ok(&self) -> bool {
        let s = &self.server_config;
        s.pid != 0 && s.buffer_size != 0 && s.batch_size != 0 && s.election_tick_timeout != 0 && s.resend_message_tick_timeout != 0 && s.flush_batch_tick_timeout != 0
    }
    fn ok(&self) -> bool {
        self.cluster_ok() && self.server_ok() && self.cluster_config.nodes.contains(&self.server_config.pid)
    }
    fn of(c: &OmniPaxosConfig) -> Self {
        let (cc, sc) = (&c.cluster_config, &c.server_config);
        RConfig {
            cluster_config: RCluster {
                configuration_id: cc.configuration_id,
                nodes: cc.nodes.clone(),
                flexible_quorum: cc.flexible_quorum.map(|q| RQuorum { read_quorum_size: q.read_quorum_size, write_quorum_size: q.write_quorum_size }),
            },
            server_config: RServer {
                pid: sc.pid,
                election_tick_timeout: sc.election_tick_timeout,
                resend_message_tick_timeout: sc.resend_message_tick_timeout,
                buffer_size: sc.buffer_size,
                batch_size: sc.batch_size,
                flush_batch_tick_timeout: sc.flush_batch_tick_timeout,
                leader_priority: sc.leader_priority,
                logger_file_path: sc.logger_file_path.clone(),
            },
        }
    }
    fn to(&self) -> OmniPaxosConfig {
        let (c, s) = (&self.cluster_config, &self.server_config);
        OmniPaxosConfig {
            cluster_config: ClusterConfig {
                configuration_id: c.configuration_id,
                nodes: c.nodes.clone(),
                flexible_quorum: c.flexible_quorum.as_ref().map(|q| FlexibleQuorum { read_quorum_size: q.read_quorum_size, write_quorum_size: q.write_quorum_size }),
            },
            server_config: ServerConfig {
                pid: s.pid,
                election_tick_timeout: s.election_tick_timeout,
                resend_message_tick_timeout: s.resend_message_tick_timeout,
                buffer_size: s.buffer_size,
                batch_size: s.batch_size,
                flush_batch_tick_timeout: s.flush_batch_tick_timeout,
                leader_priority: s.leader_priority,
                logger_file_path: s.logger_file_path.clone(),
                custom_logger: Some(logger()),
            },
        }
    }
}
fn meaning(bytes: &[u8]) -> Option<RConfig> {
    let s = std::str::from_utf8(bytes).ok()?;
    let c: RConfig = toml::from_str(s).ok()?;
    c.ok().then_some(c)
}

// ------------------------------------------------------------------------ writing files
fn text(r: &mut Rng, c: &RConfig) -> String {
    let d = RServer::default();
    let (cc, sc) = (&c.cluster_config, &c.server_config);
    let nodes = cc.nodes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    let mut a = vec![format!("configuration_id = {}", cc.configuration_id), format!("nodes = [{nodes}]")];
    let mut sub = String::new();
    if let Some(q) = &cc.flexible_quorum {
        if r.chance(1, 2) {
            a.push(format!("flexible_quorum = {{ read_quorum_size = {}, write_quorum_size = {} }}", q.read_quorum_size, q.write_quorum_size));
        } else {
            sub = format!("[cluster_config.flexible_quorum]\nwrite_quorum_size = {}\nread_quorum_size = {}\n", q.write_quorum_size, q.read_quorum_size);
        }
    }
    let mut b = vec![];
    let mut put = |r: &mut Rng, k: &str, v: u64, dv: u64| {
        // a setting at its default may be left out
        if v != dv || r.chance(1, 2) {
            b.push(format!("{k} = {v}"));
        }
    };
    put(r, "pid", sc.pid, d.pid);
    put(r, "election_tick_timeout", sc.election_tick_timeout, d.election_tick_timeout);
    put(r, "resend_message_tick_timeout", sc.resend_message_tick_timeout, d.resend_message_tick_timeout);
    put(r, "flush_batch_tick_timeout", sc.flush_batch_tick_timeout, d.flush_batch_tick_timeout);
    put(r, "buffer_size", sc.buffer_size as u64, d.buffer_size as u64);
    put(r, "batch_size", sc.batch_size as u64, d.batch_size as u64);
    put(r, "leader_priority", sc.leader_priority as u64, d.leader_priority as u64);
    if let Some(p) = &sc.logger_file_path {
        b.push(format!("logger_file_path = \"{p}\""));
    }
    r.shuffle(&mut a);
    r.shuffle(&mut b);
    let eol = if r.chance(1, 8) { "\r\n" } else { "\n" };
    let sec = |h: &str, v: &[String]| format!("[{h}]\n{}\n", v.join("\n"));
    let (x, y) = (sec("cluster_config", &a) + &sub, sec("server_config", &b));
    let mut t = if r.chance(1, 2) { format!("{x}{y}") } else { format!("{y}{x}") };
    if r.chance(1, 3) {
        t = format!("# settings of server {}\n\n{t}", sc.pid);
    }
    if r.chance(1, 4) {
        t = t.trim_end().to_string();
    }
    t.replace('\n', eol)
}

/// an out-of-range or unusual value in one setting
fn twist(r: &mut Rng, c: &mut RConfig) {
    let n = c.cluster_config.nodes.len();
    let odd = *r.pick(&[0u64, 1, 2, 3, 1 << 31, 1 << 40, i64::MAX as u64]);
    match r.below(14) {
        0 => c.cluster_config.configuration_id = *r.pick(&[0, 1, 7, u32::MAX]),
        1 => c.cluster_config.nodes.clear(),
        2 => c.cluster_config.nodes.truncate(1),
        3 => c.cluster_config.nodes.push(0),
        4 => c.server_config.pid = odd,
        5 => c.server_config.election_tick_timeout = odd,
        6 => c.server_config.resend_message_tick_timeout = odd,
        7 => c.server_config.flush_batch_tick_timeout = odd,
        8 => c.server_config.batch_size = odd as usize,
        9 => c.server_config.buffer_size = odd as usize,
        10 => c.server_config.leader_priority = *r.pick(&[0, 1, u32::MAX]),
        11 => {
            let k = r.idx(n);
            c.cluster_config.nodes[k] = *r.pick(&[0, 1, i64::MAX as u64]);
        }
        12 => c.cluster_config.flexible_quorum = None,
        _ => {
            let m = n as u64 + 2;
            let v = |r: &mut Rng| *r.pick(&[0, 1, 2, 3, n / 2, n / 2 + 1, n.wrapping_sub(1), n, n + 1, m as usize, i64::MAX as usize]);
            c.cluster_config.flexible_quorum = Some(RQuorum { read_quorum_size: v(r), write_quorum_size: v(r) });
        }
    }
}

/// what a bad disk or a crash in the middle of writing makes of a file
fn damage(r: &mut Rng, t: &str) -> (&'static str, Vec<u8>) {
    let mut b = t.as_bytes().to_vec();
    match r.below(6) {
        0 => {
            b.truncate(r.idx(b.len()));
            ("config_file_truncated", b)
        }
        1 => {
            let k = r.idx(b.len());
            b[k] ^= 1 << r.below(8);
            ("config_file_bit_flip", b)
        }
        2 => {
            let (k, l) = (r.idx(b.len()), r.idx(64) + 1);
            let hi = (k + l).min(b.len());
            b[k..hi].fill(0);
            ("config_file_torn", b)
        }
        3 => {
            let mut v: Vec<&str> = t.lines().collect();
            v.remove(r.idx(v.len()));
            ("config_file_line_lost", v.join("\n").into_bytes())
        }
        4 => {
            let mut v: Vec<&str> = t.lines().collect();
            let k = r.idx(v.len());
            v.insert(k, v[k]);
            ("config_file_line_doubled", v.join("\n").into_bytes())
        }
        _ => {
            let k = r.idx(b.len());
            let d: Vec<u8> = t.bytes().filter(|x| x.is_ascii_digit()).collect();
            let ins = *r.pick(&[b'-', b'.', b'"', b'0', b'9', b'=', b'[', b'\n', d.first().copied().unwrap_or(b'1')]);
            b.insert(k, ins);
            ("config_file_garbled", b)
        }
    }
}

/// a logger that writes every record out, to nowhere
pub fn logger() -> slog::Logger {
    struct Sink;
    impl slog::Drain for Sink {
        type Ok = ();
        type Err = slog::Never;
        fn log(&self, r: &slog::Record, _: &slog::OwnedKVList) -> Result<(), slog::Never> {
            std::hint::black_box(format!("{} {}", r.level(), r.msg()));
            Ok(())
        }
    }
    slog::Logger::root(Sink, slog::o!())
}

thread_local! {
    static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
fn dir() -> PathBuf {
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let base = std::env::var("SIM_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
                let p = base.join(format!("cfg-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
                std::fs::create_dir_all(&p).expect("cannot create scratch directory");
                p
            })
            .clone()
    })
}

fn load(path: &str) -> Result<Result<RConfig, String>, String> {
    catch_unwind(AssertUnwindSafe(|| OmniPaxosConfig::with_toml(path)))
        .map_err(|_| "panics".to_string())
        .map(|r| r.map(|c| RConfig::of(&c)).map_err(|e| e.to_string()))
}
fn judge(what: &str, bytes: &[u8], got: Result<Result<RConfig, String>, String>) -> Result<(), String> {
    let shown = String::from_utf8_lossy(bytes).replace('\n', "\\n");
    match (got, meaning(bytes)) {
        (Err(e), _) => Err(format!("{what}: loading {shown:?} {e}")),
        (Ok(Ok(c)), Some(w)) if c == w => Ok(()),
        (Ok(Ok(c)), Some(w)) => Err(format!("{what}: loading {shown:?} gives {c:?} instead of {w:?}")),
        (Ok(Ok(c)), None) => Err(format!("{what}: loading {shown:?} gives {c:?} instead of an error")),
        (Ok(Err(e)), Some(_)) => Err(format!("{what}: loading {shown:?} is refused: {e}")),
        (Ok(Err(_)), None) => Ok(()),
    }
}

/// The configuration of a server, from its file. `probe` tries to build a server from a
/// configuration and says whether that was refused.
pub fn configure(seed: u64, cc: &ClusterConfig, nc: &NodeCfg, hit: &mut dyn FnMut(&'static str), probe: &mut dyn FnMut(OmniPaxosConfig) -> Result<bool, String>) -> Result<OmniPaxosConfig, String> {
    let mut r = Rng::new(seed);
    let mut want = RConfig::of(&OmniPaxosConfig { cluster_config: cc.clone(), server_config: nc.server_config() });
    if r.chance(1, 3) {
        want.server_config.logger_file_path = Some(format!("logs/paxos_{}.log", nc.pid));
    }
    let d = dir();
    let file = d.join("node.toml");
    let path = file.to_str().unwrap();
    for _ in 0..r.below(4) {
        let t = text(&mut r, &want);
        match r.below(8) {
            0 => {
                let _ = std::fs::remove_file(&file);
                hit("config_file_missing");
                match load(path) {
                    Err(e) => return Err(format!("loading a missing configuration file {e}")),
                    Ok(Ok(c)) => return Err(format!("loading a missing configuration file gives {c:?}")),
                    Ok(Err(_)) => {}
                }
                match load(d.to_str().unwrap()) {
                    Err(e) => return Err(format!("loading a directory as configuration file {e}")),
                    Ok(Ok(c)) => return Err(format!("loading a directory as configuration file gives {c:?}")),
                    Ok(Err(_)) => {}
                }
            }
            1..=3 => {
                let mut c = want.clone();
                for _ in 0..1 + r.below(2) {
                    twist(&mut r, &mut c);
                    if c.cluster_config.nodes.is_empty() {
                        break;
                    }
                }
                hit("config_values_changed");
                let t = text(&mut r, &c);
                std::fs::write(&file, &t).map_err(|e| e.to_string())?;
                judge("configuration file", t.as_bytes(), load(path))?;
                // the same settings given in code
                if r.chance(1, 4) {
                    // sizes that no file can hold
                    let big = |r: &mut Rng| *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 2, c.cluster_config.nodes.len()]);
                    c.cluster_config.flexible_quorum = Some(RQuorum { read_quorum_size: big(&mut r), write_quorum_size: big(&mut r) });
                }
                let k = c.to();
                let v = catch_unwind(AssertUnwindSafe(|| (k.cluster_config.validate().is_ok(), k.server_config.validate().is_ok(), k.validate().is_ok()))).map_err(|_| format!("validating {c:?} panics"))?;
                let w = (c.cluster_ok(), c.server_ok(), c.ok());
                if v != w {
                    return Err(format!("validation of cluster, server and both says {v:?} instead of {w:?} for {c:?}"));
                }
                if !c.ok() {
                    hit("config_refused_at_build");
                    if !probe(k)? {
                        return Err(format!("a server is built from the invalid configuration {c:?}"));
                    }
                }
            }
            _ => {
                let (kind, b) = damage(&mut r, &t);
                hit(kind);
                std::fs::write(&file, &b).map_err(|e| e.to_string())?;
                judge("damaged configuration file", &b, load(path))?;
            }
        }
    }
    let t = text(&mut r, &want);
    std::fs::write(&file, &t).map_err(|e| e.to_string())?;
    judge("configuration file", t.as_bytes(), load(path))?;
    OmniPaxosConfig::with_toml(path).map_err(|e| e.to_string())
}
