//! Servers on the real PersistentStorage (RocksDB). A crash copies the files from under the open
//! database and opens the copy, so nothing that only lived in the process survives.
use crate::entry::SimEntry;
use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
use std::{
    fs, io,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

static NEXT: AtomicU64 = AtomicU64::new(0);

pub fn scratch_base() -> PathBuf {
    match std::env::var("SIM_SCRATCH") {
        Ok(d) => PathBuf::from(d),
        Err(_) => {
            let shm = Path::new("/dev/shm");
            if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() }
        }
    }
}
/// a fresh scratch directory, removed on drop
pub struct Scratch(pub PathBuf, u64);
impl Scratch {
    pub fn new() -> Self {
        let p = scratch_base().join(format!("simcheck-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).expect("cannot create scratch directory");
        Scratch(p, 0)
    }
    pub fn sub(&mut self) -> PathBuf {
        self.1 += 1;
        self.0.join(format!("d{}", self.1))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// copies the database files as a killed process leaves them
pub fn copy_dir(from: &Path, to: &Path) {
    'again: for _ in 0..100 {
        let _ = fs::remove_dir_all(to);
        fs::create_dir_all(to).expect("scratch");
        let mut names: Vec<_> = fs::read_dir(from).expect("scratch").map(|e| e.expect("scratch").file_name()).collect();
        names.sort();
        for n in &names {
            if n == "LOCK" || n.to_string_lossy().starts_with("LOG") {
                continue;
            }
            match fs::copy(from.join(n), to.join(n)) {
                Ok(_) => (),
                // removed by a background job meanwhile
                Err(e) if e.kind() == io::ErrorKind::NotFound => continue 'again,
                Err(e) => panic!("cannot copy {n:?}: {e}"),
            }
        }
        return;
    }
    panic!("cannot copy {from:?}");
}
pub fn open<T: SimEntry>(dir: &Path) -> PersistentStorage<T> {
    PersistentStorage::open(config(dir))
}
/// the library's default configuration without RocksDB's background compactions, whose threads the
/// simulator does not schedule
pub fn config(dir: &Path) -> PersistentStorageConfig {
    let mut c = PersistentStorageConfig::with_path(dir.to_string_lossy().into_owned());
    let mut o = c.get_database_options();
    o.set_disable_auto_compactions(true);
    c.set_database_options(o);
    let mut o = c.get_log_options();
    o.set_disable_auto_compactions(true);
    c.set_log_options(o);
    c
}

/// RocksDB compacts in the background once four table files piled up; it is done here instead, at a
/// point the simulator chooses. The default column family always has default options.
pub fn compact(dir: &Path) {
    let mut o = rocksdb::Options::default();
    o.set_disable_auto_compactions(true);
    let cf = |n: &str| rocksdb::ColumnFamilyDescriptor::new(n, o.clone());
    let db = rocksdb::DB::open_cf_descriptors(&o, dir, vec![cf("default"), cf("log")]).expect("cannot compact");
    db.compact_range(None::<&[u8]>, None::<&[u8]>);
    db.compact_range_cf(db.cf_handle("log").unwrap(), None::<&[u8]>, None::<&[u8]>);
}

pub struct RocksEnv(Scratch);
impl RocksEnv {
    pub fn new() -> Self {
        RocksEnv(Scratch::new())
    }
    pub fn new_disk<T: SimEntry>(&mut self) -> RocksDisk<T> {
        let dir = self.0.sub();
        RocksDisk { db: Some(open(&dir)), dir, n: 0 }
    }
}
pub struct RocksDisk<T: SimEntry> {
    db: Option<PersistentStorage<T>>,
    dir: PathBuf,
    n: u64,
}
impl<T: SimEntry> RocksDisk<T> {
    pub fn db(&self) -> &PersistentStorage<T> {
        self.db.as_ref().unwrap()
    }
    pub fn db_mut(&mut self) -> &mut PersistentStorage<T> {
        self.db.as_mut().unwrap()
    }
    pub fn crash(&mut self) {
        self.n += 1;
        let to = self.dir.with_extension(format!("c{}", self.n));
        copy_dir(&self.dir, &to);
        self.db = None;
        let _ = fs::remove_dir_all(&self.dir);
        self.dir = to;
        self.db = Some(open(&self.dir));
        if self.n % 2 == 0 {
            self.db = None;
            compact(&self.dir);
            self.db = Some(open(&self.dir));
        }
    }
}
