//! Log entry types. Every entry carries a unique id and its whole content is a function of the id,
//! so any invented, corrupted, lost or duplicated entry is recognisable.
use crate::rng::mix;
use omnipaxos::{
    storage::{Entry, Snapshot},
    util::LogEntry,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

pub trait SimEntry: Entry<Snapshot: Serialize + DeserializeOwned> + PartialEq + Serialize + DeserializeOwned + Debug + 'static {
    const SNAP: bool;
    const KIND: &'static str;
    fn make(id: u64) -> Self;
    fn id(&self) -> u64;
    /// the ids a snapshot stands for, in order
    fn snap_ids(s: &Self::Snapshot) -> Vec<u64>;
    /// the library's equality of log entries, where the snapshot type has one
    fn same(_a: &LogEntry<Self>, _b: &LogEntry<Self>) -> Option<bool> {
        None
    }
}

/// A snapshot that keeps exactly what it was built from: neither idempotent nor commutative, so
/// a lost, repeated, early or misplaced entry shows.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ListSnap {
    pub ids: Vec<u64>,
}
impl<T: SimEntry> Snapshot<T> for ListSnap {
    fn create(entries: &[T]) -> Self {
        ListSnap {
            ids: entries.iter().map(|e| e.id()).collect(),
        }
    }
    fn merge(&mut self, delta: Self) {
        self.ids.extend(delta.ids);
    }
    fn use_snapshots() -> bool {
        true
    }
}

#[cfg(not(feature = "unicache"))]
mod plain {
    use super::*;
    use omnipaxos::{macros::Entry, storage::NoSnapshot};
    #[derive(Entry, Clone, Debug, PartialEq, Serialize, Deserialize)]
    #[snapshot(ListSnap)]
    pub struct SnapE {
        pub id: u64,
        pub val: u64,
        pub txt: Option<String>,
    }
    impl SimEntry for SnapE {
        const SNAP: bool = true;
        const KIND: &'static str = "snap";
        fn make(id: u64) -> Self {
            SnapE {
                id,
                val: mix(id),
                txt: if id % 3 == 0 { Some(format!("t{}", id)) } else { None },
            }
        }
        fn id(&self) -> u64 {
            self.id
        }
        fn snap_ids(s: &ListSnap) -> Vec<u64> {
            s.ids.clone()
        }
        fn same(a: &LogEntry<Self>, b: &LogEntry<Self>) -> Option<bool> {
            Some(a == b)
        }
    }
    #[derive(Entry, Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct PlainE {
        pub id: u64,
        pub val: u64,
    }
    impl SimEntry for PlainE {
        const SNAP: bool = false;
        const KIND: &'static str = "plain";
        fn make(id: u64) -> Self {
            PlainE { id, val: mix(id) }
        }
        fn id(&self) -> u64 {
            self.id
        }
        fn snap_ids(_: &NoSnapshot) -> Vec<u64> {
            vec![]
        }
    }
}
#[cfg(not(feature = "unicache"))]
pub use plain::*;

#[cfg(feature = "unicache")]
mod uni {
    use super::*;
    use omnipaxos::{macros::UniCacheEntry, unicache::*};
    // the derive's generated code names these types
    #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
    #[snapshot(ListSnap)]
    pub struct SnapE {
        pub id: u64,
        #[unicache(encoding(u8), size(3), cache(lru))]
        pub a: String,
        pub val: u64,
        #[unicache(encoding(u64), size(7), cache(lru))]
        pub b: u64,
        // default cache and size: 255 encodings
        #[unicache(encoding(u8))]
        pub c: u64,
        #[unicache(encoding(u16), size(1))]
        pub d: String,
    }
    impl SimEntry for SnapE {
        const SNAP: bool = true;
        const KIND: &'static str = "lru";
        fn make(id: u64) -> Self {
            SnapE {
                id,
                a: format!("name{}", mix(id) % 5),
                val: mix(id),
                b: mix(id ^ 77) % 10,
                c: mix(id ^ 5) % 700,
                d: format!("d{}", mix(id ^ 9) % 2),
            }
        }
        fn id(&self) -> u64 {
            self.id
        }
        fn snap_ids(s: &ListSnap) -> Vec<u64> {
            s.ids.clone()
        }
        fn same(a: &LogEntry<Self>, b: &LogEntry<Self>) -> Option<bool> {
            Some(a == b)
        }
    }
    pub mod lfu {
        use super::*;
        #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct PlainE {
            pub id: u64,
            #[unicache(encoding(u8), size(3), cache(lfu))]
            pub a: String,
            pub val: u64,
            #[unicache(encoding(u64), size(6), cache(lfu))]
            pub b: u64,
            #[unicache(encoding(u8), cache(lfu))]
            pub c: u64,
            #[unicache(encoding(u32), size(1), cache(lru))]
            pub d: String,
        }
    }
    pub use lfu::PlainE;
    impl SimEntry for PlainE {
        const SNAP: bool = false;
        const KIND: &'static str = "lfu";
        fn make(id: u64) -> Self {
            PlainE {
                id,
                a: format!("name{}", mix(id) % 5),
                val: mix(id),
                b: mix(id ^ 77) % 9,
                c: mix(id ^ 5) % 700,
                d: format!("d{}", mix(id ^ 9) % 2),
            }
        }
        fn id(&self) -> u64 {
            self.id
        }
        fn snap_ids(_: &omnipaxos::storage::NoSnapshot) -> Vec<u64> {
            vec![]
        }
    }
}
#[cfg(feature = "unicache")]
pub use uni::*;
