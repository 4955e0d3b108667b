From 2e30b192b6217fd7f8f83ca5c61899f08378ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 01/23] fix: don't count the stopsign twice when synchronising
 logs

The accepted and decided indexes that servers exchange include the stopsign.
When such an index was used as common prefix the receiver of the LogSync put
the stopsign one position too far, acknowledged an entry that does not exist
and let the decided index grow beyond the stopsign.
---
 omnipaxos/src/sequence_paxos/mod.rs       | 3 +++
 omnipaxos/src/storage/internal_storage.rs | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..68a415a 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -403,6 +403,9 @@ where
         other_logs_decided_idx: usize,
     ) -> LogSync<T> {
         let decided_idx = self.internal_storage.get_decided_idx();
+        // The stopsign is sent separately, so it must not be counted in the common prefix.
+        let common_prefix_idx =
+            common_prefix_idx.min(self.internal_storage.get_accepted_idx_without_stopsign());
         let (decided_snapshot, suffix, sync_idx) =
             if T::Snapshot::use_snapshots() && decided_idx > common_prefix_idx {
                 // Note: We snapshot from the other log's decided index and not the common prefix because
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..afa74e5 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -486,6 +486,14 @@ where
         self.state_cache.accepted_idx
     }
 
+    /// The length of the replicated log without the stopsign, as if log was never compacted.
+    pub(crate) fn get_accepted_idx_without_stopsign(&self) -> usize {
+        match self.state_cache.stopsign {
+            Some(_) => self.get_accepted_idx() - 1,
+            None => self.get_accepted_idx(),
+        }
+    }
+
     pub(crate) fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
         self.storage.get_suffix(from)
     }
-- 
2.43.0


From 1f56f9b5e6341a1c9c7ebbe3aec6abf5a811106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 02/23] fix: don't merge new entries into an AcceptDecide that
 precedes an AcceptSync

A resent Promise makes the leader send another AcceptSync while an
AcceptDecide of the previous session may still be in the outgoing buffer.
Entries appended afterwards were merged into that older message and skipped
by the follower, leaving a gap in its log.
---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..296befa 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -173,6 +173,8 @@ where
             followers_decided_idx
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // Entries after the sync must not be merged into an AcceptDecide of the previous session.
+        self.leader_state.set_latest_accept_meta(to, None);
         self.leader_state.increment_seq_num_session(to);
         let acc_sync = AcceptSync {
             n: current_n,
-- 
2.43.0


From 851e3b81e71c1b9a7cd01fa0797512fabbaba129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 03/23] fix: merge a delta snapshot into the snapshot of the
 old decided log

sync_log raised the decided index before it built the snapshot that the
received delta is merged into, so entries after the old decided index were
applied twice (or undecided ones were included).
---
 omnipaxos/src/storage/internal_storage.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index afa74e5..3dac000 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -316,6 +316,14 @@ where
         decided_idx: usize,
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
+        // The delta of a snapshot applies to the entries that were decided before the sync.
+        let delta_base = match &log_sync {
+            Some(LogSync {
+                decided_snapshot: Some(SnapshotType::Delta(_)),
+                ..
+            }) => Some(self.create_decided_snapshot()?),
+            _ => None,
+        };
         self.state_cache.accepted_round = accepted_round;
         self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
@@ -331,7 +339,7 @@ where
                     sync_txn.push(StorageOp::SetSnapshot(Some(c)));
                 }
                 Some(SnapshotType::Delta(d)) => {
-                    let mut snapshot = self.create_decided_snapshot()?;
+                    let mut snapshot = delta_base.expect("No snapshot to merge the delta into");
                     snapshot.merge(d);
                     self.state_cache.compacted_idx = sync.sync_idx;
                     sync_txn.push(StorageOp::Trim(sync.sync_idx));
-- 
2.43.0


From ff1bf1313bf03300d58338a293951a490d98429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 04/23] fix: never lower the decided index when synchronising
 the log

A new leader can send an AcceptSync with a lower decided index than the
follower's, because its quorum did not include a server that knew about the
decision.
---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 3dac000..d372515 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -324,6 +324,8 @@ where
             }) => Some(self.create_decided_snapshot()?),
             _ => None,
         };
+        // The leader might not know yet that all the entries we know to be decided are decided.
+        let decided_idx = decided_idx.max(self.get_decided_idx());
         self.state_cache.accepted_round = accepted_round;
         self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
-- 
2.43.0


From ce7ae340a2b12ee23b322fc4b9d30c166a97b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 05/23] fix: use the decided index of the promise whose log is
 adopted

A PrepareReq resets the promise of its sender, but the log sync of that
promise may still be the one the new leader adopts. Its snapshot could then
reach beyond the decided index the leader took from the other promises.
---
 omnipaxos/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..a76d1a9 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -172,6 +172,7 @@ where
                 PromiseState::Promised(m) => Some(m.decided_idx),
                 _ => None,
             })
+            .chain(std::iter::once(self.max_promise_meta.decided_idx))
             .max()
             .unwrap_or_default()
     }
-- 
2.43.0


From 63041e8c0a8aba18ba73b56722ff88f661fc3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 06/23] fix: synchronise servers whose decided index is behind
 the trimmed index

Trimming requires that all servers have accepted the trimmed entries, not
that they know they are decided. Synchronising the log with a server that
has a lower decided index read entries that were trimmed and panicked.
---
 omnipaxos/src/sequence_paxos/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 68a415a..5066fd1 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -406,6 +406,11 @@ where
         // The stopsign is sent separately, so it must not be counted in the common prefix.
         let common_prefix_idx =
             common_prefix_idx.min(self.internal_storage.get_accepted_idx_without_stopsign());
+        // Entries trimmed without a snapshot are in every server's log.
+        let common_prefix_idx = match T::Snapshot::use_snapshots() {
+            true => common_prefix_idx,
+            false => common_prefix_idx.max(self.internal_storage.get_compacted_idx()),
+        };
         let (decided_snapshot, suffix, sync_idx) =
             if T::Snapshot::use_snapshots() && decided_idx > common_prefix_idx {
                 // Note: We snapshot from the other log's decided index and not the common prefix because
-- 
2.43.0


From 5ee41182488a64cd85c3645801018a15d9519e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 07/23] fix: allow trimming when the server ids are not
 contiguous

The minimum index accepted by all servers was taken over all ids up to the
largest one, so that with gaps between the ids nothing could ever be trimmed.
---
 omnipaxos/src/sequence_paxos/mod.rs | 8 ++++----
 omnipaxos/src/util.rs               | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 5066fd1..f2c0fcc 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -141,9 +141,9 @@ where
     pub(crate) fn trim(&mut self, trim_idx: Option<usize>) -> Result<(), CompactionErr> {
         match self.state {
             (Role::Leader, _) => {
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx();
+                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx(&self.peers);
                 let trimmed_idx = match trim_idx {
-                    Some(idx) if idx <= *min_all_accepted_idx => idx,
+                    Some(idx) if idx <= min_all_accepted_idx => idx,
                     None => {
                         #[cfg(feature = "logging")]
                         trace!(
@@ -151,10 +151,10 @@ where
                             "No trim index provided, using min_las_idx: {:?}",
                             min_all_accepted_idx
                         );
-                        *min_all_accepted_idx
+                        min_all_accepted_idx
                     }
                     _ => {
-                        return Err(CompactionErr::NotAllDecided(*min_all_accepted_idx));
+                        return Err(CompactionErr::NotAllDecided(min_all_accepted_idx));
                     }
                 };
                 let result = self.internal_storage.try_trim(trimmed_idx);
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index a76d1a9..7aa553f 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -184,9 +184,11 @@ where
         }
     }
 
-    pub fn get_min_all_accepted_idx(&self) -> &usize {
-        self.accepted_indexes
+    pub fn get_min_all_accepted_idx(&self, peers: &[NodeId]) -> usize {
+        peers
             .iter()
+            .chain(std::iter::once(&self.n_leader.pid))
+            .map(|pid| self.get_accepted_idx(*pid))
             .min()
             .expect("Should be all initialised to 0!")
     }
-- 
2.43.0


From 185ac99f26f1b5a5c0f778b146a9440a321dc802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 08/23] fix: forward a buffered stopsign to the leader

A reconfiguration requested before a leader was known stayed buffered forever
at a server that became a follower.
---
 omnipaxos/src/sequence_paxos/follower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index e363e33..3fca8d1 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -83,6 +83,9 @@ where
         if !proposals.is_empty() {
             self.forward_proposals(proposals);
         }
+        if let Some(ss) = self.buffered_stopsign.take() {
+            self.forward_stopsign(ss);
+        }
     }
 
     pub(crate) fn handle_acceptdecide(&mut self, acc_dec: AcceptDecide<T>) {
-- 
2.43.0


From 37939e3070903c6883ba5f6389e9ea88f29cb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 09/23] fix: don't panic on reading an empty range at the
 stopsign

---
 omnipaxos/src/storage/internal_storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index d372515..19616b9 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -150,6 +150,7 @@ where
                     self.stopsign_is_decided(),
                 )]))
             }
+            (IndexEntry::StopSign(_), IndexEntry::Entry) => Ok(Some(vec![])), // empty range
             e => {
                 unimplemented!("{}", format!("Unexpected read combination: {:?}", e))
             }
-- 
2.43.0


From 948a619d6dbb3de92610245b076f8d40197d74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:09 +0000
Subject: [PATCH 10/23] fix: don't deadlock the leader election when a priority
 is raised

---
 omnipaxos/src/ballot_leader_election.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a9c677..e7daeb2 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -154,6 +154,11 @@ impl BallotLeaderElection {
     /// priority triggers a leader re-election.
     pub(crate) fn set_priority(&mut self, p: u32) {
         self.current_ballot.priority = p;
+        // A raised ballot must also be seen as the leader by ourselves. Otherwise we might follow
+        // a server that follows us, leaving everyone happy without any leader.
+        if self.current_ballot > self.leader {
+            self.leader = self.current_ballot;
+        }
     }
 
     /// Returns reference to outgoing messages
-- 
2.43.0


From ec9cb5a39d93dc68ed22f1c6e742c328a538d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:56 +0000
Subject: [PATCH 11/23] fix: acknowledge a resent stopsign again

---
 omnipaxos/src/sequence_paxos/follower.rs | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index 3fca8d1..94afe0d 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -113,18 +113,25 @@ where
     }
 
     pub(crate) fn handle_accept_stopsign(&mut self, acc_ss: AcceptStopSign) {
-        if self.check_valid_ballot(acc_ss.n)
-            && self.state == (Role::Follower, Phase::Accept)
-            && self.handle_sequence_num(acc_ss.seq_num, acc_ss.n.pid) == MessageStatus::Expected
-        {
-            // Flush entries before appending stopsign. The accepted index is ignored here as
-            // it will be updated when appending stopsign.
-            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
-            let new_accepted_idx = self
-                .internal_storage
-                .set_stopsign(Some(acc_ss.ss))
-                .expect(WRITE_ERROR_MSG);
-            self.reply_accepted(acc_ss.n, new_accepted_idx);
+        if self.check_valid_ballot(acc_ss.n) && self.state == (Role::Follower, Phase::Accept) {
+            match self.handle_sequence_num(acc_ss.seq_num, acc_ss.n.pid) {
+                MessageStatus::Expected => {
+                    // Flush entries before appending stopsign. The accepted index is ignored here as
+                    // it will be updated when appending stopsign.
+                    let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+                    let new_accepted_idx = self
+                        .internal_storage
+                        .set_stopsign(Some(acc_ss.ss))
+                        .expect(WRITE_ERROR_MSG);
+                    self.reply_accepted(acc_ss.n, new_accepted_idx);
+                }
+                MessageStatus::Outdated if self.internal_storage.get_stopsign().is_some() => {
+                    // The leader is still resending the stopsign so our Accepted got lost.
+                    let accepted_idx = self.internal_storage.get_accepted_idx();
+                    self.reply_accepted(acc_ss.n, accepted_idx);
+                }
+                _ => (),
+            }
         }
     }
 
-- 
2.43.0


From f29ea9629d3edf843c1a95e3e4d36ae686b3427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 12/23] fix: a new UniCache leader must not encode with a
 follower's cache

---
 omnipaxos/src/sequence_paxos/leader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 296befa..0da25f9 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -5,6 +5,8 @@ use super::super::{
 use crate::util::{AcceptedMetaData, WRITE_ERROR_MSG};
 
 use super::*;
+#[cfg(feature = "unicache")]
+use crate::unicache::UniCache;
 
 impl<T, B> SequencePaxos<T, B>
 where
@@ -25,6 +27,10 @@ where
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+            // A cache received as a follower can only decode. Start over with a cache that can
+            // encode, the followers will get it when we sync with them.
+            #[cfg(feature = "unicache")]
+            self.internal_storage.set_unicache(T::UniCache::new());
             self.internal_storage.set_promise(n).expect(WRITE_ERROR_MSG);
             /* insert my promise */
             let na = self.internal_storage.get_accepted_round();
-- 
2.43.0


From 2dcbf037e4afc9514b360373b8c0d2f564a400be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 13/23] fix: don't sync a UniCache that is ahead of the synced
 log

---
 omnipaxos/src/sequence_paxos/leader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 0da25f9..7c0dcfc 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -316,6 +316,10 @@ where
             );
         }
         if prom.n == self.leader_state.n_leader {
+            // The cache sent in the AcceptSync must not contain entries that are still batched
+            // and will be sent (and cached) again when the batch is flushed.
+            #[cfg(feature = "unicache")]
+            self.flush_batch_leader();
             self.leader_state.set_promise(prom, from, false);
             self.send_accsync(from);
         }
-- 
2.43.0


From 3a4fef08ceeaedc49fb78930c85646df69a6afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 14/23] fix: a cloned LFU UniCache must evict like the original

---
 omnipaxos/src/unicache/lfu/mod.rs   | 35 +++++++++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +------
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..c510456 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -144,6 +144,41 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns a cache that maps the values to the keys and evicts in the same order as this one.
+    pub fn inverted(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let values = self
+            .values
+            .iter()
+            .map(|(k, vc)| {
+                let counter = ValueCounter {
+                    value: k.clone(),
+                    count: vc.count,
+                };
+                (vc.value.clone(), counter)
+            })
+            .collect();
+        let frequency_bin = self
+            .frequency_bin
+            .iter()
+            .map(|(frequency, keys)| {
+                let inverted_keys = keys.0.iter().map(|k| self.values[k].value.clone());
+                (
+                    *frequency,
+                    LinkedHashSetWrapper(inverted_keys.collect::<LinkedHashSet<V>>()),
+                )
+            })
+            .collect();
+        LFUCache {
+            values,
+            frequency_bin,
+            capacity: self.capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn set(&mut self, key: K, value: V) {
         if let Some(value_counter) = self.values.get_mut(&key) {
             value_counter.value = value;
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..01c71d9 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,15 +22,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(1),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.inverted(),
             encoding: self.encoding.clone(),
             size: self.size,
         }
-- 
2.43.0


From 0c045538f7d34b1f0f202b9167c6866a9cce055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 15/23] fix: deserialise LRU UniCaches that are not full

---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..f1a6152 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -206,8 +206,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // the number of elements is bounded by the `size` of the UniCache
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 5d40790da966c4de77577fc502779eb2ba45b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:01 +0000
Subject: [PATCH 16/23] fix: a server bound to the ballot of a lost leader must
 be able to rejoin

A server whose promised ballot is larger than the one of the working leader
(e.g. it crashed right after promising its own take-over ballot) rejects
everything from that leader. It stayed unhappy but never took over because its
neighbors were happy, so it never caught up again.
---
 omnipaxos/src/ballot_leader_election.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index e7daeb2..e4af44c 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -264,7 +264,17 @@ impl BallotLeaderElection {
 
     fn check_takeover(&mut self) {
         if !self.happy {
-            let all_neighbors_unhappy = self.heartbeat_replies.iter().all(|r| !r.happy);
+            // A server that is bound to the ballot of a lost leader can't follow a smaller one. It
+            // must take over even if its neighbors are happy with such a smaller leader.
+            let leader_is_lost = self.leader.pid == self.pid
+                || self
+                    .heartbeat_replies
+                    .iter()
+                    .all(|r| r.ballot.pid != self.leader.pid);
+            let all_neighbors_unhappy = self
+                .heartbeat_replies
+                .iter()
+                .all(|r| !r.happy || (leader_is_lost && r.leader < self.leader));
             let im_quorum_connected = self
                 .quorum
                 .is_prepare_quorum(self.heartbeat_replies.len() + 1);
-- 
2.43.0


From ebab0af2927719e43c9e58c0731d517b9493b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 17/23] fix: roll back failed writes of the persistent storage

A write that failed (serialisation error, full disk) left its operations in the
write batch and the next log key advanced: the operations were performed by the
next write, the reported log length was wrong and later entries left a hole.
---
 omnipaxos_storage/src/persistent_storage.rs | 67 +++++++++------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..2699192 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -258,6 +258,27 @@ where
         self.write_batch.put(SNAPSHOT, s);
         Ok(())
     }
+
+    /// Adds the operations to the write batch and writes it.
+    fn batch_and_write(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
+        for op in ops {
+            match op {
+                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
+                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
+                StorageOp::AppendOnPrefix(from_idx, entries) => {
+                    self.batch_append_on_prefix(from_idx, entries)?
+                }
+                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
+                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
+                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
+                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
+                StorageOp::Trim(idx) => self.batch_trim(idx)?,
+                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
+                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+            }
+        }
+        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+    }
 }
 
 /// An error returning the proposal that was failed due to that the current configuration is stopped.
@@ -276,23 +297,14 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
-            }
+        let next_log_key = self.next_log_key;
+        let result = self.batch_and_write(ops);
+        if result.is_err() {
+            // Nothing was written: roll back so that the next write starts from the same state.
+            self.write_batch.clear();
+            self.next_log_key = next_log_key;
         }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+        result
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
@@ -307,30 +319,11 @@ where
     }
 
     fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
-        let mut batch = WriteBatchWithTransaction::<false>::default();
-        for entry in entries {
-            batch.put_cf(
-                self.get_log_handle(),
-                self.next_log_key.to_be_bytes(),
-                bincode::serialize(&entry)?,
-            );
-            self.next_log_key += 1;
-        }
-        self.db.write(batch)?;
-        Ok(())
+        self.write_atomically(vec![StorageOp::AppendEntries(entries)])
     }
 
     fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
-        // Don't need to delete entries that will be overwritten.
-        let delete_idx = from_idx + entries.len();
-        if delete_idx < self.next_log_key {
-            let from_key = delete_idx.to_be_bytes();
-            let to_key = self.next_log_key.to_be_bytes();
-            self.db
-                .delete_range_cf(self.get_log_handle(), from_key, to_key)?;
-        }
-        self.next_log_key = from_idx;
-        self.append_entries(entries)
+        self.write_atomically(vec![StorageOp::AppendOnPrefix(from_idx, entries)])
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
-- 
2.43.0


From e0fb95186e7413af2528776dd03c63faa4f217a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:06 +0000
Subject: [PATCH 18/23] fix: don't merge a delta snapshot into a log that moved
 on since the promise

---
 omnipaxos/src/sequence_paxos/leader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 7c0dcfc..6497b50 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -178,7 +178,13 @@ where
         } else {
             followers_decided_idx
         };
-        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // A follower that was synced before in this round could have decided more since it sent this
+        // promise. A delta snapshot would be merged into the wrong log, so send a complete one.
+        let snapshot_from_idx = match self.leader_state.get_seq_num(to).session {
+            0 => followers_decided_idx,
+            _ => 0,
+        };
+        let log_sync = self.create_log_sync(followers_valid_entries_idx, snapshot_from_idx);
         // Entries after the sync must not be merged into an AcceptDecide of the previous session.
         self.leader_state.set_latest_accept_meta(to, None);
         self.leader_state.increment_seq_num_session(to);
-- 
2.43.0


From e4594e85a82d0217647ad9cc53c946edd1b4bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 19/23] fix: count a peer's heartbeat reply once per round

---
 omnipaxos/src/ballot_leader_election.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index e4af44c..c219d9b 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -304,6 +304,9 @@ impl BallotLeaderElection {
 
     fn handle_reply(&mut self, rep: HeartbeatReply) {
         if rep.round == self.hb_round && rep.ballot.config_id == self.configuration_id {
+            // A peer counts once per round, even if a reply to our previous incarnation arrives too.
+            self.heartbeat_replies
+                .retain(|r| r.ballot.pid != rep.ballot.pid);
             self.heartbeat_replies.push(rep);
         }
     }
-- 
2.43.0


From 9f5e89e98a3bb9d9bd06182d560b4f8aa8226712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:11 +0000
Subject: [PATCH 20/23] fix: refuse a cluster configuration that contains
 server id 0

Such a configuration passed validation, so reconfigure() sealed the log for a configuration
whose servers cannot be started or panic.
---
 omnipaxos/src/omni_paxos.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..a9d443a 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -105,6 +105,7 @@ impl ClusterConfig {
         let num_nodes = self.nodes.len();
         valid_config!(num_nodes > 1, "Need more than 1 node");
         valid_config!(self.configuration_id != 0, "Configuration ID cannot be 0");
+        valid_config!(!self.nodes.contains(&0), "Server pid cannot be 0");
         if let Some(FlexibleQuorum {
             read_quorum_size,
             write_quorum_size,
-- 
2.43.0


From 1daed4f7e21a2f85511b6c3e148ff28ea7abf3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:11 +0000
Subject: [PATCH 21/23] fix: refuse a flush timeout of 0 ticks

The clock never reaches it, so entries in a partial batch were never flushed.
---
 omnipaxos/src/omni_paxos.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index a9d443a..2161b2b 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -199,6 +199,10 @@ impl ServerConfig {
             self.resend_message_tick_timeout != 0,
             "Resend message tick timeout must be greater than 0"
         );
+        valid_config!(
+            self.flush_batch_tick_timeout != 0,
+            "Flush batch tick timeout must be greater than 0"
+        );
         Ok(())
     }
 }
-- 
2.43.0


From 9055882f72602b1249152ffe71db46c390c7e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:35 +0000
Subject: [PATCH 22/23] fix: refuse huge quorum sizes instead of overflowing
 while validating them

---
 omnipaxos/src/omni_paxos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index 2161b2b..2ed05bb 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -112,7 +112,7 @@ impl ClusterConfig {
         }) = self.flexible_quorum
         {
             valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
+                read_quorum_size.saturating_add(write_quorum_size) > num_nodes,
                 "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
             );
             valid_config!(
-- 
2.43.0


From 8b118b56894f3c58a2c9c4f32e9ebce044f8cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:14 +0000
Subject: [PATCH 23/23] fix: promise again when the leader asks for it in the
 round we accept in

A recovering follower can be moved back to the accept phase by an AcceptSync
that was already on its way. If its new promise is lost, the leader waits for
it and resends Prepare forever, which the follower ignored.
---
 omnipaxos/src/sequence_paxos/follower.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index 94afe0d..a60aabf 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -12,7 +12,10 @@ where
     /*** Follower ***/
     pub(crate) fn handle_prepare(&mut self, prep: Prepare, from: NodeId) {
         let old_promise = self.internal_storage.get_promise();
-        if old_promise < prep.n || (old_promise == prep.n && self.state.1 == Phase::Recover) {
+        // A prepare in the round we are already accepting in means that the leader does not have our
+        // promise (anymore), so it must be sent again.
+        let promise_again = matches!(self.state.1, Phase::Recover | Phase::Accept);
+        if old_promise < prep.n || (old_promise == prep.n && promise_again) {
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
-- 
2.43.0

