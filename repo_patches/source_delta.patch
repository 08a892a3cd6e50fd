From 7c16c18c3077b1ff8a97d5b63a01a818e676eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 01/28] Route std atomics through a crate-private alias
 (cfg(moka_sim) hook)

---
 src/cht/map/bucket.rs                |  7 +++----
 src/cht/map/bucket_array_ref.rs      |  6 ++----
 src/cht/segment.rs                   |  3 ++-
 src/common/concurrent/arc.rs         |  2 +-
 src/common/concurrent/entry_info.rs  |  2 +-
 src/common/concurrent/housekeeper.rs |  6 ++----
 src/common/time/atomic_time.rs       |  2 +-
 src/future/base_cache.rs             |  6 ++----
 src/future/housekeeper.rs            |  7 +++----
 src/future/invalidator.rs            |  7 +++----
 src/future/notifier.rs               |  6 ++----
 src/lib.rs                           | 12 ++++++++++++
 src/notification/notifier.rs         |  6 ++----
 src/sync/base_cache.rs               |  6 ++----
 src/sync/invalidator.rs              |  7 +++----
 15 files changed, 41 insertions(+), 44 deletions(-)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index c6b76a5..a4aae89 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -2,12 +2,11 @@ use std::{
     hash::{BuildHasher, Hash},
     mem::{self, MaybeUninit},
     ptr,
-    sync::{
-        atomic::{self, AtomicUsize, Ordering},
-        Arc, Mutex, TryLockError,
-    },
+    sync::{Arc, Mutex, TryLockError},
 };
 
+use crate::sim_atomic::{self as atomic, AtomicUsize, Ordering};
+
 #[cfg(feature = "unstable-debug-counters")]
 use crate::common::concurrent::debug_counters;
 
diff --git a/src/cht/map/bucket_array_ref.rs b/src/cht/map/bucket_array_ref.rs
index 38b22fb..c0c4b12 100644
--- a/src/cht/map/bucket_array_ref.rs
+++ b/src/cht/map/bucket_array_ref.rs
@@ -1,9 +1,7 @@
 use super::bucket::{self, Bucket, BucketArray, InsertOrModifyState, RehashOp};
 
-use std::{
-    hash::{BuildHasher, Hash},
-    sync::atomic::{AtomicUsize, Ordering},
-};
+use crate::sim_atomic::{AtomicUsize, Ordering};
+use std::hash::{BuildHasher, Hash};
 
 use crossbeam_epoch::{Atomic, CompareExchangeError, Guard, Owned, Shared};
 
diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index 8a0bbec..1953d31 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -40,9 +40,10 @@ use super::iter::{Iter, ScanningGet};
 use std::{
     hash::{BuildHasher, Hash},
     ptr,
-    sync::atomic::{self, AtomicUsize, Ordering},
 };
 
+use crate::sim_atomic::{self as atomic, AtomicUsize, Ordering};
+
 use crossbeam_epoch::Atomic;
 use equivalent::Equivalent;
 
diff --git a/src/common/concurrent/arc.rs b/src/common/concurrent/arc.rs
index 0e70664..2d13bb5 100644
--- a/src/common/concurrent/arc.rs
+++ b/src/common/concurrent/arc.rs
@@ -19,7 +19,7 @@ use std::{
 };
 
 #[cfg(not(moka_loom))]
-use std::sync::atomic::{self, AtomicU32};
+use crate::sim_atomic::{self as atomic, AtomicU32};
 
 #[cfg(moka_loom)]
 use loom::sync::atomic::{self, AtomicU32};
diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 8791a0d..f1eb15a 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -1,4 +1,4 @@
-use std::sync::atomic::{self, AtomicBool, AtomicU16, AtomicU32, Ordering};
+use crate::sim_atomic::{self as atomic, AtomicBool, AtomicU16, AtomicU32, Ordering};
 
 use super::{AccessTime, KeyHash};
 use crate::common::time::{AtomicInstant, Instant};
diff --git a/src/common/concurrent/housekeeper.rs b/src/common/concurrent/housekeeper.rs
index c9daa44..23ff2fc 100644
--- a/src/common/concurrent/housekeeper.rs
+++ b/src/common/concurrent/housekeeper.rs
@@ -5,10 +5,8 @@ use crate::common::time::{AtomicInstant, Instant};
 use crate::common::HousekeeperConfig;
 
 use parking_lot::{Mutex, MutexGuard};
-use std::{
-    sync::atomic::{AtomicBool, Ordering},
-    time::Duration,
-};
+use crate::sim_atomic::{AtomicBool, Ordering};
+use std::time::Duration;
 
 pub(crate) trait InnerSync {
     /// Runs the pending tasks. Returns `true` if there are more entries to evict in
diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a4870bc..4c150d8 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -1,7 +1,7 @@
 use crate::common::time::Instant;
 
 use portable_atomic::AtomicU64;
-use std::sync::atomic::Ordering;
+use crate::sim_atomic::Ordering;
 
 /// `AtomicInstant` is a wrapper around `AtomicU64` that provides thread-safe access
 /// to an `Instant`.
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ea2b280..0c4b1a0 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -36,6 +36,7 @@ use crate::{
 use common::concurrent::debug_counters::CacheDebugStats;
 
 use async_lock::{Mutex, MutexGuard, RwLock};
+use crate::sim_atomic::{AtomicBool, AtomicU8, Ordering};
 use crossbeam_channel::{Receiver, Sender, TrySendError};
 use crossbeam_utils::atomic::AtomicCell;
 use equivalent::Equivalent;
@@ -45,10 +46,7 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
-    sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
-        Arc,
-    },
+    sync::Arc,
     time::{Duration, Instant as StdInstant},
 };
 
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 1ef86cd..65fbc3f 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -8,13 +8,12 @@ use crate::common::{
 
 use std::{
     hash::{BuildHasher, Hash},
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::Arc,
     time::Duration,
 };
 
+use crate::sim_atomic::{AtomicBool, Ordering};
+
 #[cfg(test)]
 use std::sync::atomic::AtomicUsize;
 
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5c48cd1..b01458b 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -11,11 +11,10 @@ use crate::{
 use async_lock::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::Arc,
 };
+
+use crate::sim_atomic::{AtomicBool, Ordering};
 use uuid::Uuid;
 
 pub(crate) type PredicateFun<K, V> = Arc<dyn Fn(&K, &V) -> bool + Send + Sync + 'static>;
diff --git a/src/future/notifier.rs b/src/future/notifier.rs
index cbfbc09..e7fae86 100644
--- a/src/future/notifier.rs
+++ b/src/future/notifier.rs
@@ -1,7 +1,5 @@
-use std::sync::{
-    atomic::{AtomicBool, Ordering},
-    Arc,
-};
+use crate::sim_atomic::{AtomicBool, Ordering};
+use std::sync::Arc;
 
 use futures_util::FutureExt;
 
diff --git a/src/lib.rs b/src/lib.rs
index 71d8aa0..4f790b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,6 +236,18 @@ compile_error!(
     `moka` crate. Please update your dependencies in Cargo.toml"
 );
 
+// The atomic types used by this crate. They are the standard ones, except under
+// `cfg(moka_sim)` (off by default), where a simulation harness supplies a
+// replacement of the `portable-atomic` crate whose operations are scheduling points.
+#[cfg(any(feature = "sync", feature = "future"))]
+#[allow(unexpected_cfgs)]
+pub(crate) mod sim_atomic {
+    #[cfg(moka_sim)]
+    pub(crate) use portable_atomic::*;
+    #[cfg(not(moka_sim))]
+    pub(crate) use std::sync::atomic::*;
+}
+
 // Reexport(s)
 pub use equivalent::Equivalent;
 
diff --git a/src/notification/notifier.rs b/src/notification/notifier.rs
index 5d70696..3e6d90e 100644
--- a/src/notification/notifier.rs
+++ b/src/notification/notifier.rs
@@ -1,7 +1,5 @@
-use std::sync::{
-    atomic::{AtomicBool, Ordering},
-    Arc,
-};
+use crate::sim_atomic::{AtomicBool, Ordering};
+use std::sync::Arc;
 
 use crate::notification::{EvictionListener, RemovalCause};
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce1acb7..317353d 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -30,6 +30,7 @@ use crate::{
     Entry, Expiry, Policy, PredicateError,
 };
 
+use crate::sim_atomic::{AtomicBool, AtomicU8, Ordering};
 use crossbeam_channel::{Receiver, Sender, TrySendError};
 use crossbeam_utils::atomic::AtomicCell;
 use equivalent::Equivalent;
@@ -40,10 +41,7 @@ use std::{
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
     rc::Rc,
-    sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
-        Arc,
-    },
+    sync::Arc,
     time::{Duration, Instant as StdInstant},
 };
 
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index f5ff7dc..51296ec 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -11,11 +11,10 @@ use crate::{
 use parking_lot::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::Arc,
 };
+
+use crate::sim_atomic::{AtomicBool, Ordering};
 use uuid::Uuid;
 
 pub(crate) type PredicateFun<K, V> = Arc<dyn Fn(&K, &V) -> bool + Send + Sync + 'static>;
-- 
2.43.0


From b62777ba9d4cc32e2ff6a150305d0da6a26320d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:42 +0000
Subject: [PATCH 02/28] fix: return the key from
 entry_by_ref().or_try_insert_with() of an existing entry

The by-ref variant looked the entry up without its key, so that the returned
Entry panicked with "Bug: Key is None" when its key was used.
---
 src/sync/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index ce25f7c..858cd82 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1419,7 +1419,7 @@ where
         E: Send + Sync + 'static,
         Q: Equivalent<K> + ToOwned<Owned = K> + Hash + ?Sized,
     {
-        if let Some(entry) = self.get_with_hash(key, hash, false) {
+        if let Some(entry) = self.get_with_hash(key, hash, need_key) {
             return Ok(entry);
         }
 
-- 
2.43.0


From 0cac2b6fb5a4eddc3ebaca41f2b7654d4d207c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:20 +0000
Subject: [PATCH 03/28] fix: tell insert from update by the result of
 insert_with_or_modify

A serial number on the last closure call does not tell which operation took
effect: the concurrent hash table keeps the value made by on_insert and reuses
it without calling on_insert again, so insert (CAS failed), modify (CAS
failed), insert (succeeded) was taken for an update. The cache then sent a
removal notification for an entry it had not replaced, and a write operation
for an entry that was not in the hash table.
---
 src/future/base_cache.rs | 41 +++++++++++++++++-----------------------
 src/sync/base_cache.rs   | 40 ++++++++++++++++-----------------------
 2 files changed, 33 insertions(+), 48 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 0c4b1a0..df8326c 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -36,7 +36,7 @@ use crate::{
 use common::concurrent::debug_counters::CacheDebugStats;
 
 use async_lock::{Mutex, MutexGuard, RwLock};
-use crate::sim_atomic::{AtomicBool, AtomicU8, Ordering};
+use crate::sim_atomic::{AtomicBool, Ordering};
 use crossbeam_channel::{Receiver, Sender, TrySendError};
 use crossbeam_utils::atomic::AtomicCell;
 use equivalent::Equivalent;
@@ -480,8 +480,6 @@ where
         self.retry_interrupted_ops().await;
 
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Arc::new(AtomicU8::new(0));
-        let op_cnt2 = Arc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -495,27 +493,23 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
         // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // closures can be executed more than once (on_insert at most once, as its
+        // value is kept and reused by the retries). In order to identify which one
+        // actually took effect, we check the return value. If it is_some, the value
+        // was updated with the result of the last call of on_modify, otherwise the
+        // value was inserted with the result of on_insert.
+        let result = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -528,22 +522,21 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_entry, upd_op))) => {
-                self.do_post_update_steps(ts, key, old_entry, upd_op, &self.interrupted_op_ch_snd)
+        let is_updated = result.is_some();
+        drop(result);
+
+        match (is_updated, op1, op2) {
+            (false, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (true, _, Some((old_info, upd_op))) => {
+                self.do_post_update_steps(ts, key, old_info, upd_op, &self.interrupted_op_ch_snd)
                     .await
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 317353d..4af3d14 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -30,7 +30,7 @@ use crate::{
     Entry, Expiry, Policy, PredicateError,
 };
 
-use crate::sim_atomic::{AtomicBool, AtomicU8, Ordering};
+use crate::sim_atomic::{AtomicBool, Ordering};
 use crossbeam_channel::{Receiver, Sender, TrySendError};
 use crossbeam_utils::atomic::AtomicCell;
 use equivalent::Equivalent;
@@ -40,7 +40,6 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
-    rc::Rc,
     sync::Arc,
     time::{Duration, Instant as StdInstant},
 };
@@ -484,8 +483,6 @@ where
         value: V,
     ) -> (WriteOp<K, V>, Instant) {
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Rc::new(AtomicU8::new(0));
-        let op_cnt2 = Rc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -495,27 +492,23 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
         // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // closures can be executed more than once (on_insert at most once, as its
+        // value is kept and reused by the retries). In order to identify which one
+        // actually took effect, we check the return value. If it is_some, the value
+        // was updated with the result of the last call of on_modify, otherwise the
+        // value was inserted with the result of on_insert.
+        let result = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -528,21 +521,20 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_info, upd_op))) => {
+        let is_updated = result.is_some();
+        drop(result);
+
+        match (is_updated, op1, op2) {
+            (false, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (true, _, Some((old_info, upd_op))) => {
                 self.do_post_update_steps(ts, key, old_info, upd_op)
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
-- 
2.43.0


From 87cc9174c5975ac8fb7cf1b47115674c0fad0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 04/28] fix: do not admit an entry that is no longer in the
 hash table

When the write operation for the removal of an entry was processed before the
one for its upsert (two threads can send them in either order), or the entry
was evicted meanwhile, handle_upsert admitted the entry to the policy although
it was gone from the hash table. Nothing ever removed it from the access-order
and write-order queues, so entry_count and weighted_size stayed too large and
the cache lost that part of its capacity.
---
 src/future/base_cache.rs | 20 ++++++++++++++++++++
 src/sync/base_cache.rs   | 20 ++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index df8326c..fed4be2 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1613,6 +1613,26 @@ where
                 return;
             }
 
+            // Do not admit the entry if it is not in the hash map anymore. It can
+            // happen when the entry was removed after this upsert, and the write
+            // operation for the removal was processed before (or the removal was
+            // done by the eviction or expiration). No other write operation will
+            // come to remove it from the deques.
+            let is_present = self
+                .cache
+                .get_key_value_and(
+                    kh.hash,
+                    |k| k == &kh.key,
+                    |_, current_entry| {
+                        MiniArc::ptr_eq(entry.entry_info(), current_entry.entry_info())
+                    },
+                )
+                .unwrap_or_default();
+            if !is_present {
+                entry.entry_info().set_policy_gen(gen);
+                return;
+            }
+
             if self.has_enough_capacity(new_weight, counters) {
                 // There are enough room in the cache (or the cache is unbounded).
                 // Add the candidate to the deques.
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 4af3d14..9b52dff 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1461,6 +1461,26 @@ where
                 return;
             }
 
+            // Do not admit the entry if it is not in the hash map anymore. It can
+            // happen when the entry was removed after this upsert, and the write
+            // operation for the removal was processed before (or the removal was
+            // done by the eviction or expiration). No other write operation will
+            // come to remove it from the deques.
+            let is_present = self
+                .cache
+                .get_key_value_and(
+                    kh.hash,
+                    |k| k == &kh.key,
+                    |_, current_entry| {
+                        MiniArc::ptr_eq(entry.entry_info(), current_entry.entry_info())
+                    },
+                )
+                .unwrap_or_default();
+            if !is_present {
+                entry.entry_info().set_policy_gen(gen);
+                return;
+            }
+
             if self.has_enough_capacity(new_weight, counters) {
                 // There are enough room in the cache (or the cache is unbounded).
                 // Add the candidate to the deques.
-- 
2.43.0


From 71ea03e697e4744db511e8c651519ca1cda3abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:14 +0000
Subject: [PATCH 05/28] fix: subtract the weight that was added for the entry

The weighted size was adjusted by the weights recorded in the write operations
and, on a removal, by the current weight of the entry. These do not match what
was added when the write operations of concurrent updates are processed in a
different order, when an entry is removed before the write operation of its
latest update was processed, or when an update of the hash table had to be
retried. Remember the weight that was added for each entry, and subtract it.
---
 src/common/concurrent.rs            |  5 -----
 src/common/concurrent/entry_info.rs | 15 +++++++++++++++
 src/future/base_cache.rs            | 26 ++++++++++++++------------
 src/sync/base_cache.rs              | 26 ++++++++++++++------------
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index eb8fec4..133e9d5 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -315,7 +315,6 @@ pub(crate) enum WriteOp<K, V> {
         value_entry: MiniArc<ValueEntry<K, V>>,
         /// Entry generation after the operation.
         entry_gen: u16,
-        old_weight: u32,
         new_weight: u32,
     },
     Remove {
@@ -333,13 +332,11 @@ impl<K, V> Clone for WriteOp<K, V> {
                 key_hash,
                 value_entry,
                 entry_gen,
-                old_weight,
                 new_weight,
             } => Self::Upsert {
                 key_hash: key_hash.clone(),
                 value_entry: MiniArc::clone(value_entry),
                 entry_gen: *entry_gen,
-                old_weight: *old_weight,
                 new_weight: *new_weight,
             },
             Self::Remove {
@@ -368,7 +365,6 @@ impl<K, V> WriteOp<K, V> {
         hash: u64,
         value_entry: &MiniArc<ValueEntry<K, V>>,
         entry_generation: u16,
-        old_weight: u32,
         new_weight: u32,
     ) -> Self {
         let key_hash = KeyHash::new(Arc::clone(key), hash);
@@ -377,7 +373,6 @@ impl<K, V> WriteOp<K, V> {
             key_hash,
             value_entry,
             entry_gen: entry_generation,
-            old_weight,
             new_weight,
         }
     }
diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index f1eb15a..1912c29 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -35,6 +35,11 @@ pub(crate) struct EntryInfo<K> {
     last_accessed: AtomicInstant,
     last_modified: AtomicInstant,
     policy_weight: AtomicU32,
+    /// The weight of this entry that is currently included in the weighted size of
+    /// the cache. It is only updated when a `WriteOp` is applied to the cache
+    /// policies, while `policy_weight` is updated when the entry is updated in the
+    /// concurrent hash table.
+    accounted_weight: AtomicU32,
 }
 
 impl<K> EntryInfo<K> {
@@ -54,6 +59,7 @@ impl<K> EntryInfo<K> {
             last_accessed: AtomicInstant::new(timestamp),
             last_modified: AtomicInstant::new(timestamp),
             policy_weight: AtomicU32::new(policy_weight),
+            accounted_weight: AtomicU32::new(0),
         }
     }
 
@@ -131,6 +137,15 @@ impl<K> EntryInfo<K> {
         self.policy_weight.store(size, Ordering::Release);
     }
 
+    #[inline]
+    pub(crate) fn accounted_weight(&self) -> u32 {
+        self.accounted_weight.load(Ordering::Acquire)
+    }
+
+    pub(crate) fn set_accounted_weight(&self, size: u32) {
+        self.accounted_weight.store(size, Ordering::Release);
+    }
+
     /// Atomically reads both `expiration_time` and `expiry_gen` as a single unit.
     /// Returns `(expiration_time, expiry_gen)` where expiration_time is None if unset.
     ///
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index fed4be2..09a2788 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -508,20 +508,18 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 op1 = Some(ins_op);
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 op2 = Some((old_info, upd_op));
                 entry
             },
@@ -1551,14 +1549,12 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => {
                     self.handle_upsert(
                         kh,
                         entry,
                         gen,
-                        old_weight,
                         new_weight,
                         deqs,
                         timer_wheel,
@@ -1590,7 +1586,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1604,8 +1599,14 @@ where
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
-                counters.saturating_add(0, new_weight);
+                // Use the current weight of the entry rather than `new_weight`
+                // because the write operations of concurrent updates can come in
+                // a different order from the updates.
+                let info = entry.entry_info();
+                let current_weight = info.policy_weight();
+                counters.saturating_sub(0, info.accounted_weight());
+                counters.saturating_add(0, current_weight);
+                info.set_accounted_weight(current_weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1874,6 +1875,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_accounted_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1978,7 +1980,7 @@ where
     ) {
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().accounted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
             Deques::unlink_wo(&mut deqs.write_order, &entry);
@@ -2008,7 +2010,7 @@ where
         }
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().accounted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
             Deques::unlink_wo(wo_deq, &entry);
@@ -2509,7 +2511,7 @@ where
                         .await;
                 }
                 eviction_state.counters.incr_eviction_count();
-                let weight = entry.policy_weight();
+                let weight = entry.entry_info().accounted_weight();
                 let (deq, write_order_deq) = deqs.select_mut(CacheRegion::MainProbation);
                 Self::handle_remove_with_deques(
                     deq_name,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 9b52dff..a7d64ec 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -507,20 +507,18 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 op1 = Some(ins_op);
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 op2 = Some((old_info, upd_op));
                 entry
             },
@@ -1402,13 +1400,11 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => self.handle_upsert(
                     kh,
                     entry,
                     gen,
-                    old_weight,
                     new_weight,
                     deqs,
                     timer_wheel,
@@ -1438,7 +1434,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1452,8 +1447,14 @@ where
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
-                counters.saturating_add(0, new_weight);
+                // Use the current weight of the entry rather than `new_weight`
+                // because the write operations of concurrent updates can come in
+                // a different order from the updates.
+                let info = entry.entry_info();
+                let current_weight = info.policy_weight();
+                counters.saturating_sub(0, info.accounted_weight());
+                counters.saturating_add(0, current_weight);
+                info.set_accounted_weight(current_weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1708,6 +1709,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_accounted_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1813,7 +1815,7 @@ where
     ) {
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().accounted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
             Deques::unlink_wo(&mut deqs.write_order, &entry);
@@ -1843,7 +1845,7 @@ where
         }
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().accounted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
             Deques::unlink_wo(wo_deq, &entry);
@@ -2304,7 +2306,7 @@ where
                     eviction_state.notify_entry_removal(key, &entry, RemovalCause::Size);
                 }
                 eviction_state.counters.incr_eviction_count();
-                let weight = entry.policy_weight();
+                let weight = entry.entry_info().accounted_weight();
                 Self::handle_remove_with_deques(
                     deq_name,
                     ao_deq,
-- 
2.43.0


From 726b08b183ea11912a16922bf270104c6323bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 06/28] fix: do not remove an entry without holding the key
 lock

When an eviction listener is set, invalidate and remove looked up the key to
lock it, and went on to remove the entry without the lock when they had missed
the key. An entry inserted meanwhile by another thread was then removed and
notified concurrently with other notifications of the same key, and in a wrong
order.
---
 src/future/cache.rs | 27 +++++++++++----------------
 src/sync/cache.rs   | 19 +++++++------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/future/cache.rs b/src/future/cache.rs
index 07eb6e3..3db60a7 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1938,22 +1938,17 @@ where
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
             //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = if let Some(lock) = &kl {
-                    Some(lock.lock().await)
-                } else {
-                    None
-                };
-            }
+            // If we miss the key, there is nothing to remove. We must not try to
+            // remove it then, because somebody else (other thread) may have
+            // inserted the key after that, and we would remove the entry without
+            // the key lock.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = if let Some(lock) = &kl {
+                Some(lock.lock().await)
+            } else {
+                None
+            };
         }
 
         match self.base.remove_entry(key, hash) {
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 858cd82..2be1586 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1584,18 +1584,13 @@ where
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
             //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = kl.as_ref().map(|kl| kl.lock());
-            }
+            // If we miss the key, there is nothing to remove. We must not try to
+            // remove it then, because somebody else (other thread) may have
+            // inserted the key after that, and we would remove the entry without
+            // the key lock.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = kl.as_ref().map(|kl| kl.lock());
         }
 
         match self.base.remove_entry(key, hash) {
-- 
2.43.0


From e4e32b010156f0f5d43d93624dddcf9512d04757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:34 +0000
Subject: [PATCH 07/28] fix: do not share a key lock that is being removed from
 the lock map

A key lock was removed from the lock map when the reference count of its mutex
was two. Another thread could get the mutex from the map after the count was
checked and before it was removed; a third thread then created a new mutex for
the same key, and both entered the critical section. And when two threads
dropped the last two locks at the same time, neither removed the mutex.
Count the users of the mutex instead, and do not share it after the count has
become zero.
---
 src/common/concurrent/arc.rs |  1 +
 src/future/key_lock.rs       | 80 +++++++++++++++++++++++++++++-------
 src/sync/key_lock.rs         | 80 +++++++++++++++++++++++++++++-------
 3 files changed, 133 insertions(+), 28 deletions(-)

diff --git a/src/common/concurrent/arc.rs b/src/common/concurrent/arc.rs
index 2d13bb5..eaf9a0b 100644
--- a/src/common/concurrent/arc.rs
+++ b/src/common/concurrent/arc.rs
@@ -73,6 +73,7 @@ impl<T> MiniArc<T> {
 
 impl<T: ?Sized> MiniArc<T> {
     /// Gets the number of [`MiniArc`] pointers to this allocation
+    #[cfg(test)]
     pub(crate) fn count(this: &Self) -> u32 {
         use atomic::Ordering::Acquire;
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 1365937..067187d 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -3,13 +3,56 @@ use std::{
     sync::Arc,
 };
 
-use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
+use crate::{
+    cht::SegmentedHashMap,
+    common::concurrent::arc::MiniArc,
+    sim_atomic::{AtomicUsize, Ordering},
+};
 
 use async_lock::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<CountedMutex>, S>;
+
+/// A mutex with the number of `KeyLock`s that share it. Once the number has become
+/// zero, the mutex is dead; it is being removed from the `LockMap` and must not be
+/// shared by a new `KeyLock`.
+struct CountedMutex {
+    mutex: Mutex<()>,
+    count: AtomicUsize,
+}
+
+impl CountedMutex {
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::new(()),
+            count: AtomicUsize::new(1),
+        }
+    }
+
+    /// Increments the count unless the mutex is dead. Returns `false` if it is dead.
+    fn retain(&self) -> bool {
+        let mut count = self.count.load(Ordering::Acquire);
+        while count != 0 {
+            match self.count.compare_exchange_weak(
+                count,
+                count + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(current) => count = current,
+            }
+        }
+        false
+    }
+
+    /// Decrements the count. Returns `true` if the mutex has become dead.
+    fn release(&self) -> bool {
+        self.count.fetch_sub(1, Ordering::AcqRel) == 1
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +63,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<CountedMutex>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,11 +72,11 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
+        if self.lock.release() {
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
+                |_k, v| MiniArc::ptr_eq(v, &self.lock),
             );
         }
     }
@@ -44,7 +87,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<CountedMutex>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -54,7 +97,7 @@ where
     }
 
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock().await
+        self.lock.mutex.lock().await
     }
 }
 
@@ -75,13 +118,22 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(CountedMutex::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) if existing_kl.retain() => {
+                    return KeyLock::new(&self.locks, key, hash, existing_kl)
+                }
+                Some(dead_kl) => {
+                    // Its last user is about to remove it. Do not wait for that.
+                    self.locks
+                        .remove_if(hash, |k| k == key, |_k, v| MiniArc::ptr_eq(v, &dead_kl));
+                }
+            }
         }
     }
 }
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index bde1912..37da6d2 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -3,13 +3,56 @@ use std::{
     sync::Arc,
 };
 
-use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
+use crate::{
+    cht::SegmentedHashMap,
+    common::concurrent::arc::MiniArc,
+    sim_atomic::{AtomicUsize, Ordering},
+};
 
 use parking_lot::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<CountedMutex>, S>;
+
+/// A mutex with the number of `KeyLock`s that share it. Once the number has become
+/// zero, the mutex is dead; it is being removed from the `LockMap` and must not be
+/// shared by a new `KeyLock`.
+struct CountedMutex {
+    mutex: Mutex<()>,
+    count: AtomicUsize,
+}
+
+impl CountedMutex {
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::new(()),
+            count: AtomicUsize::new(1),
+        }
+    }
+
+    /// Increments the count unless the mutex is dead. Returns `false` if it is dead.
+    fn retain(&self) -> bool {
+        let mut count = self.count.load(Ordering::Acquire);
+        while count != 0 {
+            match self.count.compare_exchange_weak(
+                count,
+                count + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(current) => count = current,
+            }
+        }
+        false
+    }
+
+    /// Decrements the count. Returns `true` if the mutex has become dead.
+    fn release(&self) -> bool {
+        self.count.fetch_sub(1, Ordering::AcqRel) == 1
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +63,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<CountedMutex>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,11 +72,11 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
+        if self.lock.release() {
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
+                |_k, v| MiniArc::ptr_eq(v, &self.lock),
             );
         }
     }
@@ -44,7 +87,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<CountedMutex>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -54,7 +97,7 @@ where
     }
 
     pub(crate) fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock()
+        self.lock.mutex.lock()
     }
 }
 
@@ -75,13 +118,22 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(CountedMutex::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) if existing_kl.retain() => {
+                    return KeyLock::new(&self.locks, key, hash, existing_kl)
+                }
+                Some(dead_kl) => {
+                    // Its last user is about to remove it. Do not wait for that.
+                    self.locks
+                        .remove_if(hash, |k| k == key, |_k, v| MiniArc::ptr_eq(v, &dead_kl));
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 1fb63abdaa63128c996f48b1004729fb749c8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:33 +0000
Subject: [PATCH 08/28] fix: do not remove an entry as expired while it is
 being updated

---
 src/future/base_cache.rs | 9 +++++++--
 src/sync/base_cache.rs   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 09a2788..dfb92f9 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2072,11 +2072,16 @@ where
                 None
             };
 
-            // Remove the key from the map only when the entry is really expired.
+            // Remove the key from the map only when the entry is really expired. Check
+            // again if it is dirty, as it may have just been updated and its new
+            // expiration time may not be set yet.
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now),
+                |_, v| {
+                    let info = v.entry_info();
+                    !info.is_dirty() && is_expired_by_per_entry_ttl(info, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index a7d64ec..225f908 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1898,11 +1898,16 @@ where
                 let kl = self.maybe_key_lock(key);
                 let _klg = &kl.as_ref().map(|kl| kl.lock());
 
-                // Remove the key from the map only when the entry is really expired.
+                // Remove the key from the map only when the entry is really expired. Check
+                // again if it is dirty, as it may have just been updated and its new
+                // expiration time may not be set yet.
                 let maybe_entry = self.cache.remove_if(
                     hash,
                     |k| k == key,
-                    |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now),
+                    |_, v| {
+                        let info = v.entry_info();
+                        !info.is_dirty() && is_expired_by_per_entry_ttl(info, now)
+                    },
                 );
 
                 if let Some(entry) = maybe_entry {
-- 
2.43.0


From f3bf182c4689a37d5930d3ca377129214fd3c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 09/28] fix: do not move access, modification and invalidation
 times backwards

---
 src/common/concurrent/entry_info.rs |  6 ++++--
 src/common/time/atomic_time.rs      | 13 +++++++++++++
 src/future/base_cache.rs            |  3 ++-
 src/sync/base_cache.rs              |  3 ++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 1912c29..083400d 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -233,7 +233,8 @@ impl<K> AccessTime for EntryInfo<K> {
 
     #[inline]
     fn set_last_accessed(&self, timestamp: Instant) {
-        self.last_accessed.set_instant(timestamp);
+        // Another thread may have already set a later time.
+        self.last_accessed.advance_to(timestamp);
     }
 
     #[inline]
@@ -243,6 +244,7 @@ impl<K> AccessTime for EntryInfo<K> {
 
     #[inline]
     fn set_last_modified(&self, timestamp: Instant) {
-        self.last_modified.set_instant(timestamp);
+        // Another thread may have already set a later time.
+        self.last_modified.advance_to(timestamp);
     }
 }
diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index 4c150d8..a415cdf 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -54,4 +54,17 @@ impl AtomicInstant {
 
         self.instant.store(instant.as_nanos(), Ordering::Release);
     }
+
+    /// Sets the `Instant` unless a later one has already been set.
+    pub(crate) fn advance_to(&self, instant: Instant) {
+        // Ensure the `Instant` is not `u64::MAX`, which means unset.
+        debug_assert!(instant.as_nanos() != u64::MAX);
+
+        let ts = instant.as_nanos();
+        let _ = self
+            .instant
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                (current == u64::MAX || current < ts).then_some(ts)
+            });
+    }
 }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index dfb92f9..5bceca2 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1108,7 +1108,8 @@ impl<K, V, S> Inner<K, V, S> {
 
     #[inline]
     fn set_valid_after(&self, timestamp: Instant) {
-        self.valid_after.set_instant(timestamp);
+        // Another thread may have already set a later time.
+        self.valid_after.advance_to(timestamp);
     }
 
     #[inline]
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 225f908..0b2cd20 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -963,7 +963,8 @@ impl<K, V, S> Inner<K, V, S> {
 
     #[inline]
     fn set_valid_after(&self, timestamp: Instant) {
-        self.valid_after.set_instant(timestamp);
+        // Another thread may have already set a later time.
+        self.valid_after.advance_to(timestamp);
     }
 
     #[inline]
-- 
2.43.0


From 1cea52fb6f966db9a89bc4347a96861c8afa855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 10/28] fix: let the policy generation wrap around together
 with the entry generation

---
 src/common/concurrent/entry_info.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 083400d..8767679 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -111,11 +111,11 @@ impl<K> EntryInfo<K> {
         loop {
             let current = g.load(Ordering::Acquire);
 
-            // Do not set the given value if it is smaller than the current value of
-            // `policy_gen`. Note that the current value may have been wrapped
-            // around. If the value is much larger than the current value, it is
-            // likely that the value of `policy_gen` has been wrapped around.
-            if current >= value || value.wrapping_sub(current) > u16::MAX / 2 {
+            // Do not set the given value if it is older than the current value of
+            // `policy_gen`. Note that the value may have been wrapped around. If
+            // the distance from the current value to the value is large, it is
+            // likely that the value is older.
+            if current == value || value.wrapping_sub(current) > u16::MAX / 2 {
                 break;
             }
 
-- 
2.43.0


From 4c58a4b62a0bdba49537d340a7e14a81cc8c9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:37 +0000
Subject: [PATCH 11/28] fix: do not leave waiters behind when a maintenance
 task is cancelled

A maintenance task whose enclosing future was dropped stays suspended until
somebody resumes it. It may hold a key lock then, and nobody may be listening
for the write op channel any more: wake up the waiters and let those waiting
for a key lock resume the task. Also do not miss an event that was sent just
before starting to listen to it.
---
 src/future/base_cache.rs  | 39 ++++++++++++++++++++++++---
 src/future/cache.rs       |  2 +-
 src/future/housekeeper.rs | 56 ++++++++++++++++++++++++++++++---------
 src/future/key_lock.rs    |  4 +++
 4 files changed, 85 insertions(+), 16 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 5bceca2..472be3a 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -486,7 +486,7 @@ where
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
         let _klg = if let Some(lock) = &kl {
-            Some(lock.lock().await)
+            Some(self.lock_key(lock).await)
         } else {
             None
         };
@@ -627,6 +627,7 @@ where
 
         let mut op = op;
         let mut spin_loop_attempts = 0u8;
+        let mut listener = None;
         loop {
             // Run the `Inner::do_run_pending_tasks` method if needed.
             BaseCache::<K, V, S>::apply_reads_writes_if_needed(inner, ch, ts, housekeeper).await;
@@ -652,7 +653,7 @@ where
                 for _ in 0..SPIN_COUNT {
                     std::hint::spin_loop();
                 }
-            } else {
+            } else if let Some(l) = listener.take() {
                 spin_loop_attempts = 0;
 
                 // Yield the async runtime scheduler to other async tasks and wait
@@ -665,10 +666,42 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
-                ch_ready_event.listen().await;
+                l.await;
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
+            } else {
+                // Start listening to the event, and try again before waiting for it
+                // because it may have been sent just before we started.
+                listener = Some(ch_ready_event.listen());
+            }
+        }
+    }
+
+    /// Waits for the key lock.
+    ///
+    /// Async Cancellation Safety: If a maintenance task was cancelled, it may be
+    /// suspended while holding the key lock or while being the next one to get it.
+    /// So we resume it while we are waiting; otherwise nobody may do so.
+    pub(crate) async fn lock_key<'a>(&self, lock: &'a KeyLock<'_, K, S>) -> MutexGuard<'a, ()> {
+        use futures_util::future::{select, Either};
+        use std::pin::pin;
+
+        if let Some(guard) = lock.try_lock() {
+            return guard;
+        }
+
+        let mut guard = pin!(lock.lock());
+        loop {
+            let listener = self.write_op_ch_ready_event().listen();
+            let resume = pin!(async {
+                if let Some(hk) = &self.housekeeper {
+                    hk.resume_pending_tasks(&self.inner).await;
+                }
+                listener.await;
+            });
+            if let Either::Left((guard, _)) = select(guard.as_mut(), resume).await {
+                return guard;
             }
         }
     }
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 3db60a7..575304d 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1945,7 +1945,7 @@ where
             let arc_key = self.base.get_key_with_hash(key, hash)?;
             kl = self.base.maybe_key_lock(&arc_key);
             klg = if let Some(lock) = &kl {
-                Some(lock.lock().await)
+                Some(self.base.lock_key(lock).await)
             } else {
                 None
             };
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 65fbc3f..7b86275 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -25,6 +25,8 @@ use super::base_cache::Inner;
 pub(crate) struct Housekeeper {
     /// A shared `Future` of the maintenance task that is currently being resolved.
     current_task: Mutex<Option<Shared<BoxFuture<'static, bool>>>>,
+    /// Whether `current_task` has a task, which is either running or cancelled.
+    has_current_task: AtomicBool,
     run_after: AtomicInstant,
     /// A flag to indicate if the last call on `run_pending_tasks` method left some
     /// entries to evict.
@@ -52,6 +54,21 @@ pub(crate) struct Housekeeper {
     pub(crate) complete_count: AtomicUsize,
 }
 
+/// Notifies the async tasks waiting for the write op channel (in the
+/// `BaseCache::schedule_write_op` method) or for a key lock (in the
+/// `BaseCache::lock_key` method) when the lock on the `current_task` has been freed.
+///
+/// Async Cancellation Safety: Create this before locking the `current_task`, so that
+/// the waiters will be also notified when the enclosing `Future` was dropped while
+/// the maintenance task was running.
+struct TaskLockNotifier<'a>(&'a event_listener::Event);
+
+impl Drop for TaskLockNotifier<'_> {
+    fn drop(&mut self) {
+        self.0.notify(usize::MAX);
+    }
+}
+
 impl Housekeeper {
     pub(crate) fn new(
         is_eviction_listener_enabled: bool,
@@ -69,6 +86,7 @@ impl Housekeeper {
 
         Self {
             current_task: Mutex::default(),
+            has_current_task: AtomicBool::new(false),
             run_after: AtomicInstant::new(Self::sync_after(now)),
             more_entries_to_evict,
             maintenance_task_timeout,
@@ -116,15 +134,10 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        let _notifier = TaskLockNotifier(&cache.write_op_ch_ready_event);
         let mut current_task = self.current_task.lock().await;
         self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
             .await;
-
-        drop(current_task);
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
     }
 
     /// Tries to run the pending tasks if the lock is free. Returns `true` if there
@@ -135,21 +148,38 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        let notifier = TaskLockNotifier(&cache.write_op_ch_ready_event);
         if let Some(mut current_task) = self.current_task.try_lock() {
             self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
                 .await;
         } else {
+            // We did not have the lock, so we have nothing to notify.
+            std::mem::forget(notifier);
             return false;
         }
-
-        // The `current_task` lock should be free now.
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
         true
     }
 
+    /// Resumes the maintenance task if it was cancelled and nobody has resumed it.
+    pub(crate) async fn resume_pending_tasks<K, V, S>(&self, cache: &Arc<Inner<K, V, S>>)
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Clone + Send + Sync + 'static,
+    {
+        if self.has_current_task.load(Ordering::Acquire) {
+            let notifier = TaskLockNotifier(&cache.write_op_ch_ready_event);
+            if let Some(mut current_task) = self.current_task.try_lock() {
+                if current_task.is_some() {
+                    self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
+                        .await;
+                }
+            } else {
+                std::mem::forget(notifier);
+            }
+        }
+    }
+
     async fn do_run_pending_tasks<K, V, S>(
         &self,
         cache: Arc<Inner<K, V, S>>,
@@ -183,6 +213,7 @@ impl Housekeeper {
             .boxed()
             .shared();
             *current_task = Some(task.clone());
+            self.has_current_task.store(true, Ordering::Release);
 
             #[cfg(test)]
             self.start_count.fetch_add(1, Ordering::AcqRel);
@@ -193,6 +224,7 @@ impl Housekeeper {
         // If we are here, it means that the maintenance task has been completed.
         // We can remove it from the lock.
         *current_task = None;
+        self.has_current_task.store(false, Ordering::Release);
         self.run_after.set_instant(Self::sync_after(now));
         self.set_more_entries_to_evict(more_to_evict);
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 067187d..77a1ca5 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -96,6 +96,10 @@ where
         }
     }
 
+    pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, ()>> {
+        self.lock.mutex.try_lock()
+    }
+
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
         self.lock.mutex.lock().await
     }
-- 
2.43.0


From 1a998882503200df8a289fbc8ab9d7d9689493a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 12/28] fix: do not take a just registered invalidation
 predicate for absent

---
 src/future/invalidator.rs | 27 ++++++++++++---------------
 src/sync/invalidator.rs   | 27 ++++++++++++---------------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index b01458b..2ac934e 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -14,7 +14,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::sim_atomic::{AtomicBool, Ordering};
+use crate::sim_atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
 
 pub(crate) type PredicateFun<K, V> = Arc<dyn Fn(&K, &V) -> bool + Send + Sync + 'static>;
@@ -49,7 +49,8 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    /// The number of predicates, including the ones being registered.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -69,13 +70,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::new(0),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
     pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
@@ -94,11 +95,9 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         for id in removing_ids {
             let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == &id).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
@@ -125,8 +124,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -257,11 +256,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 51296ec..b87c6cb 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -14,7 +14,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::sim_atomic::{AtomicBool, Ordering};
+use crate::sim_atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
 
 pub(crate) type PredicateFun<K, V> = Arc<dyn Fn(&K, &V) -> bool + Send + Sync + 'static>;
@@ -49,7 +49,8 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    /// The number of predicates, including the ones being registered.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -69,13 +70,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::new(0),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
     pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
@@ -94,11 +95,9 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         for id in removing_ids {
             let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == &id).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
@@ -125,8 +124,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -257,11 +256,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates.iter() {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
-- 
2.43.0


From e21b605089d753c3939ba49175c2df5d1e387670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:45 +0000
Subject: [PATCH 13/28] fix: do not skip entries at batch boundaries when
 scanning for invalidation predicates

Peeking the next entry moved the cursor of the write order queue, so the entry
next to the last one in a batch was never examined, and the cursor was left in
the middle of the queue when the scan was finished while newer predicates were
registered.
---
 src/cht/segment.rs        |  2 ++
 src/common/deque.rs       |  6 ++++++
 src/future/base_cache.rs  | 13 +++++++------
 src/future/invalidator.rs | 10 +++++++---
 src/sync/base_cache.rs    | 13 +++++++------
 src/sync/invalidator.rs   | 10 +++++++---
 6 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index 1953d31..2d4d2ac 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -206,6 +206,7 @@ impl<K, V, S> HashMap<K, V, S> {
     ///
     /// This method on its own is safe, but other threads can add or remove
     /// elements at any time.
+    #[cfg(test)]
     pub(crate) fn len(&self) -> usize {
         self.len.load(Ordering::Relaxed)
     }
@@ -216,6 +217,7 @@ impl<K, V, S> HashMap<K, V, S> {
     ///
     /// This method on its own is safe, but other threads can add or remove
     /// elements at any time.
+    #[cfg(test)]
     pub(crate) fn is_empty(&self) -> bool {
         self.len() == 0
     }
diff --git a/src/common/deque.rs b/src/common/deque.rs
index 0f25cfb..4582918 100644
--- a/src/common/deque.rs
+++ b/src/common/deque.rs
@@ -276,6 +276,12 @@ impl<T> Deque<T> {
         std::mem::drop(Box::from_raw(node.as_ptr()));
     }
 
+    /// Returns `true` if the iteration has not reached the end of the deque, so that
+    /// it will continue from the current position.
+    pub(crate) fn is_iterating(&self) -> bool {
+        matches!(self.cursor, Some(DeqCursor::Node(_)))
+    }
+
     pub(crate) fn reset_cursor(&mut self) {
         self.cursor = None;
     }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 472be3a..537dc82 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2427,9 +2427,8 @@ where
 
         let mut candidates = Vec::default();
         let mut len = 0;
-        let has_next;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2445,23 +2444,25 @@ where
                     break;
                 }
             }
-
-            has_next = iter.peek().is_some();
         }
 
+        // Do not peek the next entry as it would move the cursor of the queue, and
+        // the next run would skip that entry.
+        let has_next = deqs.write_order.is_iterating();
+
         if len == 0 {
             return;
         }
 
         let is_truncated = len == batch_size && has_next;
-        let (invalidated, is_done) = invalidator
+        let (invalidated, is_finished) = invalidator
             .scan_and_invalidate(self, candidates, is_truncated)
             .await;
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
         }
-        if is_done {
+        if is_finished {
             deqs.write_order.reset_cursor();
         }
         if !invalidator.is_empty() {
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 2ac934e..43b2be3 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -192,9 +192,10 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_finished =
+            self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_finished)
     }
 }
 
@@ -219,12 +220,14 @@ where
         false
     }
 
+    /// Returns `true` if the scan for the predicates in the scan context is finished.
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -246,6 +249,7 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 0b2cd20..ff171d8 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2196,9 +2196,8 @@ where
 
         let mut candidates = Vec::new();
         let mut len = 0;
-        let has_next;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2214,22 +2213,24 @@ where
                     break;
                 }
             }
-
-            has_next = iter.peek().is_some();
         }
 
+        // Do not peek the next entry as it would move the cursor of the queue, and
+        // the next run would skip that entry.
+        let has_next = deqs.write_order.is_iterating();
+
         if len == 0 {
             return;
         }
 
         let is_truncated = len == batch_size && has_next;
-        let (invalidated, is_done) =
+        let (invalidated, is_finished) =
             invalidator.scan_and_invalidate(self, candidates, is_truncated);
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
         }
-        if is_done {
+        if is_finished {
             deqs.write_order.reset_cursor();
         }
         if !invalidator.is_empty() {
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index b87c6cb..ee4cc8d 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -192,9 +192,10 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_finished =
+            self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_finished)
     }
 }
 
@@ -219,12 +220,14 @@ where
         false
     }
 
+    /// Returns `true` if the scan for the predicates in the scan context is finished.
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -246,6 +249,7 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
-- 
2.43.0


From 729f3acb9d28c67be4be3f9131ab246b54ba75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:16 +0000
Subject: [PATCH 14/28] fix: do not drop an invalidation predicate before the
 earlier write ops are processed

A predicate registered after a maintenance task had drained the write op channel
could be taken as finished though the entries written before it were not yet in
the write order queue, so those entries became visible again.
---
 src/future/base_cache.rs  | 22 +++++++++++++++-------
 src/future/invalidator.rs | 10 +++++++++-
 src/sync/base_cache.rs    | 20 ++++++++++++++------
 src/sync/invalidator.rs   | 10 +++++++++-
 4 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 537dc82..c26439b 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -35,8 +35,8 @@ use crate::{
 #[cfg(feature = "unstable-debug-counters")]
 use common::concurrent::debug_counters::CacheDebugStats;
 
-use async_lock::{Mutex, MutexGuard, RwLock};
 use crate::sim_atomic::{AtomicBool, Ordering};
+use async_lock::{Mutex, MutexGuard, RwLock};
 use crossbeam_channel::{Receiver, Sender, TrySendError};
 use crossbeam_utils::atomic::AtomicCell;
 use equivalent::Equivalent;
@@ -1336,6 +1336,8 @@ where
             None
         };
         let mut should_process_logs = true;
+        // The write ops of the entries written by this time have been processed.
+        let mut logs_processed_at = None;
         let mut calls = 0u32;
         let current_ec = self.entry_count.load();
         let current_ws = self.weighted_size.load();
@@ -1344,6 +1346,10 @@ where
 
         loop {
             if should_process_logs {
+                if self.invalidator.is_some() {
+                    logs_processed_at = Some(self.current_time());
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
@@ -1405,10 +1411,12 @@ where
 
             // Evict entries if there are any invalidation predicates set by the
             // `invalidate_entries_if` method.
-            if let Some(invalidator) = &self.invalidator {
+            if let (Some(invalidator), Some(processed_at)) = (&self.invalidator, logs_processed_at)
+            {
                 if !invalidator.is_empty() {
                     self.invalidate_entries(
                         invalidator,
+                        processed_at,
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
@@ -2409,6 +2417,7 @@ where
     async fn invalidate_entries(
         &self,
         invalidator: &Invalidator<K, V, S>,
+        logs_processed_at: Instant,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
@@ -2416,12 +2425,11 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // that have been registered before the write ops were processed. (An entry
+        // may have been written since then, and followed by a predicate)
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.remove_predicates_registered_before(logs_processed_at);
             return;
         }
 
@@ -2456,7 +2464,7 @@ where
 
         let is_truncated = len == batch_size && has_next;
         let (invalidated, is_finished) = invalidator
-            .scan_and_invalidate(self, candidates, is_truncated)
+            .scan_and_invalidate(self, candidates, is_truncated, logs_processed_at)
             .await;
 
         for KvEntry { key: _key, entry } in invalidated {
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 43b2be3..0f60744 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -163,6 +163,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
+        logs_processed_at: Instant,
     ) -> (Vec<KvEntry<K, V>>, bool)
     where
         K: Hash + Eq + Send + Sync + 'static,
@@ -171,7 +172,14 @@ impl<K, V, S> Invalidator<K, V, S> {
     {
         let mut predicates = self.scan_context.predicates.lock().await;
         if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+            // Exclude the predicates registered after the write ops were processed.
+            // The write order queue may not have all the entries for them.
+            *predicates = self
+                .predicates
+                .iter()
+                .map(|(_k, v)| v)
+                .filter(|p| p.registered_at <= logs_processed_at)
+                .collect();
         }
 
         let mut invalidated = Vec::default();
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ff171d8..df7da7e 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1177,6 +1177,8 @@ where
             None
         };
         let mut should_process_logs = true;
+        // The write ops of the entries written by this time have been processed.
+        let mut logs_processed_at = None;
         let mut calls = 0u32;
         let current_ec = self.entry_count.load();
         let current_ws = self.weighted_size.load();
@@ -1185,6 +1187,10 @@ where
 
         loop {
             if should_process_logs {
+                if self.invalidator.is_some() {
+                    logs_processed_at = Some(self.current_time());
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
@@ -1233,10 +1239,12 @@ where
 
             // Evict entries if there are any invalidation predicates set by the
             // `invalidate_entries_if` method.
-            if let Some(invalidator) = &self.invalidator {
+            if let (Some(invalidator), Some(processed_at)) = (&self.invalidator, logs_processed_at)
+            {
                 if !invalidator.is_empty() {
                     self.invalidate_entries(
                         invalidator,
+                        processed_at,
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
@@ -2178,6 +2186,7 @@ where
     fn invalidate_entries(
         &self,
         invalidator: &Invalidator<K, V, S>,
+        logs_processed_at: Instant,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
@@ -2185,12 +2194,11 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // that have been registered before the write ops were processed. (An entry
+        // may have been written since then, and followed by a predicate)
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.remove_predicates_registered_before(logs_processed_at);
             return;
         }
 
@@ -2225,7 +2233,7 @@ where
 
         let is_truncated = len == batch_size && has_next;
         let (invalidated, is_finished) =
-            invalidator.scan_and_invalidate(self, candidates, is_truncated);
+            invalidator.scan_and_invalidate(self, candidates, is_truncated, logs_processed_at);
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index ee4cc8d..c5c5439 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -163,6 +163,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
+        logs_processed_at: Instant,
     ) -> (Vec<KvEntry<K, V>>, bool)
     where
         K: Hash + Eq + Send + Sync + 'static,
@@ -171,7 +172,14 @@ impl<K, V, S> Invalidator<K, V, S> {
     {
         let mut predicates = self.scan_context.predicates.lock();
         if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+            // Exclude the predicates registered after the write ops were processed.
+            // The write order queue may not have all the entries for them.
+            *predicates = self
+                .predicates
+                .iter()
+                .map(|(_k, v)| v)
+                .filter(|p| p.registered_at <= logs_processed_at)
+                .collect();
         }
 
         let mut invalidated = Vec::default();
-- 
2.43.0


From 669b140d078b5078798b86371dc6c67b85036196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 15/28] fix: do not delay a timer event whose time has already
 passed

The event was put into a bucket which had already been visited, and stayed there
until the timer wheel turned around (up to about 68 seconds).
---
 src/common/timer_wheel.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/timer_wheel.rs b/src/common/timer_wheel.rs
index 54d466a..89d2be3 100644
--- a/src/common/timer_wheel.rs
+++ b/src/common/timer_wheel.rs
@@ -437,6 +437,9 @@ impl<K> TimerWheel<K> {
     /// Returns the bucket indices to locate the bucket that the timer event
     /// should be added to.
     fn bucket_indices(&self, time: Instant) -> (usize, usize) {
+        // If the time has already passed, use the bucket for the current time. The
+        // bucket for that time would not be visited until the wheel turns around.
+        let time = time.max(self.current);
         let duration_nanos = self.duration_nanos_since_last_advanced(time);
         let time_nanos = self.time_nanos(time);
         for level in 0..=NUM_LEVELS {
-- 
2.43.0


From 24a035008d626e09b5683351de5d81e18ae170d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:19 +0000
Subject: [PATCH 16/28] fix: keep the times of the replaced entry when retrying
 an update

When the hash table had to retry an update, the removal cause was decided with
the times set by the first try, so an already expired entry was reported as
Replaced.
---
 src/future/base_cache.rs | 10 ++++++++--
 src/sync/base_cache.rs   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index c26439b..3fa6696 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -481,7 +481,7 @@ where
 
         let weight = self.inner.weigh(&key, &value);
         let mut op1 = None;
-        let mut op2 = None;
+        let mut op2: Option<(OldEntryInfo<K, V>, _)> = None;
 
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
@@ -517,7 +517,13 @@ where
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
-                let old_info = OldEntryInfo::new(old_entry);
+                // If this is a retry for the same old ValueEntry, reuse the one created
+                // by the previous call, because that call has already updated the
+                // timestamps in the EntryInfo shared with the old ValueEntry.
+                let old_info = match op2.take() {
+                    Some((info, _)) if MiniArc::ptr_eq(&info.entry, old_entry) => info,
+                    _ => OldEntryInfo::new(old_entry),
+                };
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 op2 = Some((old_info, upd_op));
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index df7da7e..e7bd858 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -484,7 +484,7 @@ where
     ) -> (WriteOp<K, V>, Instant) {
         let weight = self.inner.weigh(&key, &value);
         let mut op1 = None;
-        let mut op2 = None;
+        let mut op2: Option<(OldEntryInfo<K, V>, _)> = None;
 
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
@@ -516,7 +516,13 @@ where
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
-                let old_info = OldEntryInfo::new(old_entry);
+                // If this is a retry for the same old ValueEntry, reuse the one created
+                // by the previous call, because that call has already updated the
+                // timestamps in the EntryInfo shared with the old ValueEntry.
+                let old_info = match op2.take() {
+                    Some((info, _)) if MiniArc::ptr_eq(&info.entry, old_entry) => info,
+                    _ => OldEntryInfo::new(old_entry),
+                };
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 op2 = Some((old_info, upd_op));
-- 
2.43.0


From d72cb8039ef60f1b1c3d55b05101e7a53a98e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:01 +0000
Subject: [PATCH 17/28] fix: look at the invalidation predicates before looking
 up an entry

A predicate could be dropped by a maintenance task after a reader had looked up
an entry and before it checked the predicates, so an entry invalidated before
the read started was returned.
---
 src/future/base_cache.rs  | 41 ++++++++++++++++++++++++++++++---------
 src/future/invalidator.rs | 31 ++++++++++++++++++++---------
 src/sync/base_cache.rs    | 41 ++++++++++++++++++++++++++++++---------
 src/sync/invalidator.rs   | 31 ++++++++++++++++++++---------
 4 files changed, 108 insertions(+), 36 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 3fa6696..c3590a0 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1,6 +1,6 @@
 use super::{
     housekeeper::Housekeeper,
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, Predicate, PredicateFun},
     key_lock::{KeyLock, KeyLockMap},
     notifier::RemovalNotifier,
     InterruptedOp, PredicateId,
@@ -223,6 +223,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let predicates = self.inner.invalidation_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -233,7 +235,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !i.is_invalidated_entry(&predicates, k, entry)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -259,6 +261,7 @@ where
         }
 
         let mut now = self.current_time();
+        let predicates = self.inner.invalidation_predicates();
 
         let maybe_kv_and_op = self
             .inner
@@ -276,7 +279,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || i.is_invalidated_entry(&predicates, k, entry)
                 {
                     // Expired or invalidated entry.
                     None
@@ -422,6 +425,8 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let predicates = self.inner.invalidation_predicates();
+
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -430,7 +435,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || i.is_invalidated_entry(&predicates, k, entry)
             {
                 // Expired or invalidated entry.
                 None
@@ -1297,16 +1302,34 @@ where
         }
     }
 
+    /// Returns the predicates set by `invalidate_entries_if` method.
+    ///
+    /// This must be called _before_ looking up an entry. A predicate is dropped after
+    /// the entries it applies to were removed from the hash table, so if an entry was
+    /// looked up first, the predicate could have been dropped when it is checked.
+    #[inline]
+    fn invalidation_predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        V: Clone,
+    {
+        self.invalidator
+            .as_ref()
+            .map(|inv| inv.predicates())
+            .unwrap_or_default()
+    }
+
     /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn is_invalidated_entry(
+        &self,
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
     #[inline]
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 0f60744..bb5e8e5 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -136,23 +136,36 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
+    /// Returns the current predicates.
+    pub(crate) fn predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Send + Sync + 'static,
+    {
+        if self.is_empty() {
+            Vec::new()
+        } else {
+            self.predicates.iter().map(|(_, v)| v).collect()
+        }
+    }
+
     // This method will be called by the get method of Cache.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn apply_predicates(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
-        if self.is_empty() {
+        if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
         } else {
             false
         }
@@ -360,7 +373,7 @@ impl<K, V> Default for ScanContext<K, V> {
     }
 }
 
-struct Predicate<K, V> {
+pub(crate) struct Predicate<K, V> {
     id: PredicateId,
     f: PredicateFun<K, V>,
     registered_at: Instant,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index e7bd858..b656dba 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1,5 +1,5 @@
 use super::{
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, Predicate, PredicateFun},
     key_lock::{KeyLock, KeyLockMap},
     PredicateId,
 };
@@ -196,6 +196,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let predicates = self.inner.invalidation_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -206,7 +208,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !i.is_invalidated_entry(&predicates, k, entry)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -277,6 +279,7 @@ where
         }
 
         let mut now = self.current_time();
+        let predicates = self.inner.invalidation_predicates();
 
         let maybe_entry = self
             .inner
@@ -294,7 +297,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || i.is_invalidated_entry(&predicates, k, entry)
                 {
                     // Expired or invalidated entry.
                     None
@@ -427,6 +430,8 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let predicates = self.inner.invalidation_predicates();
+
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -435,7 +440,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || i.is_invalidated_entry(&predicates, k, entry)
             {
                 // Expired or invalidated entry.
                 None
@@ -1119,16 +1124,34 @@ where
         }
     }
 
+    /// Returns the predicates set by `invalidate_entries_if` method.
+    ///
+    /// This must be called _before_ looking up an entry. A predicate is dropped after
+    /// the entries it applies to were removed from the hash table, so if an entry was
+    /// looked up first, the predicate could have been dropped when it is checked.
+    #[inline]
+    fn invalidation_predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        V: Clone,
+    {
+        self.invalidator
+            .as_ref()
+            .map(|inv| inv.predicates())
+            .unwrap_or_default()
+    }
+
     /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn is_invalidated_entry(
+        &self,
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
     #[inline]
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index c5c5439..7838546 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -136,23 +136,36 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
+    /// Returns the current predicates.
+    pub(crate) fn predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher,
+    {
+        if self.is_empty() {
+            Vec::new()
+        } else {
+            self.predicates.iter().map(|(_, v)| v).collect()
+        }
+    }
+
     // This method will be called by the get method of Cache.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn apply_predicates(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        if self.is_empty() {
+        if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
         } else {
             false
         }
@@ -354,7 +367,7 @@ impl<K, V> Default for ScanContext<K, V> {
     }
 }
 
-struct Predicate<K, V> {
+pub(crate) struct Predicate<K, V> {
     id: PredicateId,
     f: PredicateFun<K, V>,
     registered_at: Instant,
-- 
2.43.0


From 8d3b3c1572c083e996506d59895bd7ded9719e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 18/28] fix: remove entries invalidated by invalidate_all even
 if they were being read

The access order queue was checked with the last accessed time only. If a read
overlapped with invalidate_all, the entry became invisible to the users but was
never removed, and kept taking space.
---
 src/future/base_cache.rs | 16 +++++++++++-----
 src/sync/base_cache.rs   | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index c3590a0..59e6329 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2229,15 +2229,19 @@ where
                     elem.hash(),
                     elem.is_dirty(),
                     elem.last_accessed(),
+                    elem.last_modified(),
                 )
             });
 
             let (key, hash, cause) = match maybe_key_hash_ts {
-                Some((key, hash, false, Some(ts))) => {
+                Some((key, hash, false, Some(ts), lm)) => {
+                    // Check the last modified time for `invalidate_all`. The last
+                    // accessed time may have been updated by a concurrent read.
+                    let is_invalid = lm.map_or(false, |lm| is_invalid_entry(va, lm));
                     let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
-                        (false, true) => RemovalCause::Explicit,
-                        (false, false) => {
+                        (false, invalid) if invalid || is_invalid => RemovalCause::Explicit,
+                        (false, _) => {
                             more_to_evict = false;
                             break;
                         }
@@ -2247,7 +2251,7 @@ where
                 // TODO: Remove the second pattern `Some((_key, false, None))` once
                 // we change `last_modified` and `last_accessed` in `EntryInfo` from
                 // `Option<Instant>` to `Instant`.
-                Some((key, hash, true, _) | (key, hash, false, None)) => {
+                Some((key, hash, true, _, _) | (key, hash, false, None, _)) => {
                     // `is_dirty` is true or `last_modified` is None. Skip this entry
                     // as it may have been updated by this or other async task but
                     // its `WriteOp` is not processed yet.
@@ -2280,7 +2284,9 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_ao(tti, va, v, now),
+                |_, v| {
+                    is_expired_entry_ao(tti, va, v, now) || is_expired_entry_wo(&None, va, v, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index b656dba..ce93879 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2019,15 +2019,19 @@ where
                     elem.hash(),
                     elem.is_dirty(),
                     elem.last_accessed(),
+                    elem.last_modified(),
                 )
             });
 
             let (key, hash, cause) = match maybe_key_hash_ts {
-                Some((key, hash, false, Some(ts))) => {
+                Some((key, hash, false, Some(ts), lm)) => {
+                    // Check the last modified time for `invalidate_all`. The last
+                    // accessed time may have been updated by a concurrent read.
+                    let is_invalid = lm.map_or(false, |lm| is_invalid_entry(va, lm));
                     let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
-                        (false, true) => RemovalCause::Explicit,
-                        (false, false) => {
+                        (false, invalid) if invalid || is_invalid => RemovalCause::Explicit,
+                        (false, _) => {
                             more_to_evict = false;
                             break;
                         }
@@ -2037,7 +2041,7 @@ where
                 // TODO: Remove the second pattern `Some((_key, false, None))` once
                 // we change `last_modified` and `last_accessed` in `EntryInfo` from
                 // `Option<Instant>` to `Instant`.
-                Some((key, hash, true, _) | (key, hash, false, None)) => {
+                Some((key, hash, true, _, _) | (key, hash, false, None, _)) => {
                     // `is_dirty` is true or `last_modified` is None. Skip this entry
                     // as it may have been updated by this or other async task but
                     // its `WriteOp` is not processed yet.
@@ -2065,7 +2069,9 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_ao(tti, va, v, now),
+                |_, v| {
+                    is_expired_entry_ao(tti, va, v, now) || is_expired_entry_wo(&None, va, v, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
-- 
2.43.0


From 2e0ad3fd05a6a1d66b4d8dabd1ec930aa7773b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 19/28] Format the moka_sim hook

---
 src/common/concurrent/housekeeper.rs | 2 +-
 src/common/time/atomic_time.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/concurrent/housekeeper.rs b/src/common/concurrent/housekeeper.rs
index 23ff2fc..c11a099 100644
--- a/src/common/concurrent/housekeeper.rs
+++ b/src/common/concurrent/housekeeper.rs
@@ -4,8 +4,8 @@ use super::constants::{READ_LOG_FLUSH_POINT, WRITE_LOG_FLUSH_POINT};
 use crate::common::time::{AtomicInstant, Instant};
 use crate::common::HousekeeperConfig;
 
-use parking_lot::{Mutex, MutexGuard};
 use crate::sim_atomic::{AtomicBool, Ordering};
+use parking_lot::{Mutex, MutexGuard};
 use std::time::Duration;
 
 pub(crate) trait InnerSync {
diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a415cdf..d636f4c 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -1,7 +1,7 @@
 use crate::common::time::Instant;
 
-use portable_atomic::AtomicU64;
 use crate::sim_atomic::Ordering;
+use portable_atomic::AtomicU64;
 
 /// `AtomicInstant` is a wrapper around `AtomicU64` that provides thread-safe access
 /// to an `Instant`.
-- 
2.43.0


From 6799c785fb72e3479532d675c8e37edf305c5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:11 +0000
Subject: [PATCH 20/28] fix: report the removal cause of the entry that is
 actually removed

The cause was decided from the deque node before removing the entry. If the
expired entry was replaced and invalidated by invalidate_all in between, the new
value was reported as Expired.
---
 src/future/base_cache.rs | 20 +++++++++++++++++---
 src/sync/base_cache.rs   | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 59e6329..252727f 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2233,7 +2233,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts), lm)) => {
                     // Check the last modified time for `invalidate_all`. The last
                     // accessed time may have been updated by a concurrent read.
@@ -2285,6 +2285,12 @@ where
                 hash,
                 |k| k == &key,
                 |_, v| {
+                    // Decide the cause again as the entry may have been updated since
+                    // we checked its deque node.
+                    cause = match v.last_accessed() {
+                        Some(ts) if is_expired_by_tti(tti, ts, now) => RemovalCause::Expired,
+                        _ => RemovalCause::Explicit,
+                    };
                     is_expired_entry_ao(tti, va, v, now) || is_expired_entry_wo(&None, va, v, now)
                 },
             );
@@ -2384,7 +2390,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts))) => {
                     let cause = match is_entry_expired_wo_or_invalid(ttl, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
@@ -2427,7 +2433,15 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_wo(ttl, va, v, now),
+                |_, v| {
+                    // Decide the cause again as the entry may have been updated since
+                    // we checked its deque node.
+                    cause = match v.last_modified() {
+                        Some(ts) if is_expired_by_ttl(ttl, ts, now) => RemovalCause::Expired,
+                        _ => RemovalCause::Explicit,
+                    };
+                    is_expired_entry_wo(ttl, va, v, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce93879..3b17f6a 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2023,7 +2023,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts), lm)) => {
                     // Check the last modified time for `invalidate_all`. The last
                     // accessed time may have been updated by a concurrent read.
@@ -2070,6 +2070,12 @@ where
                 hash,
                 |k| k == &key,
                 |_, v| {
+                    // Decide the cause again as the entry may have been updated since
+                    // we checked its deque node.
+                    cause = match v.last_accessed() {
+                        Some(ts) if is_expired_by_tti(tti, ts, now) => RemovalCause::Expired,
+                        _ => RemovalCause::Explicit,
+                    };
                     is_expired_entry_ao(tti, va, v, now) || is_expired_entry_wo(&None, va, v, now)
                 },
             );
@@ -2165,7 +2171,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts))) => {
                     let cause = match is_entry_expired_wo_or_invalid(ttl, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
@@ -2198,7 +2204,15 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_wo(ttl, va, v, now),
+                |_, v| {
+                    // Decide the cause again as the entry may have been updated since
+                    // we checked its deque node.
+                    cause = match v.last_modified() {
+                        Some(ts) if is_expired_by_ttl(ttl, ts, now) => RemovalCause::Expired,
+                        _ => RemovalCause::Explicit,
+                    };
+                    is_expired_entry_wo(ttl, va, v, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
-- 
2.43.0


From b5ec1a1d6d6b815349bd40819be985ccda90b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:01 +0000
Subject: [PATCH 21/28] fix: drop the value when insert_if_not_present finds an
 entry after a retry

If the first compare-exchange failed, the value was already in a Bucket, which
does not drop its value. When the retry found that another thread had inserted
the key, the value was leaked. For get_with and others, the leaked value was a
waiter holding a clone of the cached value.
---
 src/cht/map/bucket.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index a4aae89..83de114 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -187,7 +187,11 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
                 }
 
                 if !is_tombstone(this_bucket_ptr) {
-                    // Found. Return it.
+                    // Found. Return it. If we have already tried to insert our
+                    // value, drop it here because `Bucket` does not drop it.
+                    if let InsertOrModifyState::AttemptedInsertion(mut b) = state {
+                        unsafe { ptr::drop_in_place(b.maybe_value.as_mut_ptr()) };
+                    }
                     return Ok(InsertionResult::AlreadyPresent(this_bucket_ptr));
                 }
             }
-- 
2.43.0


From 679f639a3279fd584661c399d2d38ce1887737bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:57 +0000
Subject: [PATCH 22/28] fix: schedule the timer when get_with changes the
 expiration time

The read done by get_with and others while waiting for a concurrent call was not
recorded. If its expire_after_read gave an expiration time to an entry that had
none, no timer was scheduled, and the entry was never removed after it expired.
---
 src/future/base_cache.rs |  7 ++++---
 src/sync/base_cache.rs   | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 252727f..8965000 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -312,8 +312,9 @@ where
                         //
                         // - If the bounded `read_op_ch` channel is full, the `ReadOp` will
                         //   be discarded.
-                        // - If we were called by `get_with_hash_without_recording` method,
-                        //   the `ReadOp` will not be recorded at all.
+                        // - If `record_read` is `false`, the `ReadOp` will not be recorded
+                        //   unless the expiration time was modified. (In that case, the
+                        //   entry may have no timer yet)
                         //
                         // These cases are okay because when the timer wheel tries to expire
                         // the entry, it will check if the entry is actually expired. If not,
@@ -334,7 +335,7 @@ where
 
                     let maybe_key = if need_key { Some(Arc::clone(k)) } else { None };
                     let ent = Entry::new(maybe_key, entry.value.clone(), false, false);
-                    let maybe_op = if record_read {
+                    let maybe_op = if record_read || is_expiry_modified {
                         Some(ReadOp::Hit {
                             value_entry: MiniArc::clone(entry),
                             is_expiry_modified,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 3b17f6a..685e945 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -255,8 +255,18 @@ where
         Q: Equivalent<K> + Hash + ?Sized,
         I: FnMut(&V) -> bool,
     {
-        // Define a closure that skips to record a read op.
-        let record = |_op, _now| {};
+        // Define a closure that skips to record a read op, unless the expiration time
+        // was modified. In that case, the entry may have no timer yet.
+        let record = |op, now| {
+            if let ReadOp::Hit {
+                is_expiry_modified: true,
+                ..
+            } = &op
+            {
+                self.record_read_op(op, now)
+                    .expect("Failed to record a get op");
+            }
+        };
         self.do_get_with_hash(key, hash, record, ignore_if, false)
             .map(Entry::into_value)
     }
@@ -337,7 +347,8 @@ where
                 // - If the bounded `read_op_ch` channel is full, the `ReadOp` will
                 //   be discarded.
                 // - If we were called by `get_with_hash_without_recording` method,
-                //   the `ReadOp` will not be recorded at all.
+                //   the `ReadOp` will not be recorded unless the expiration time was
+                //   modified.
                 //
                 // These cases are okay because when the timer wheel tries to expire
                 // the entry, it will check if the entry is actually expired. If not,
-- 
2.43.0


From 5ca5769cc6aa0ab2b6fb8c3a947b522a8e415d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:10 +0000
Subject: [PATCH 23/28] fix: stop calling a panicked eviction listener in all
 segments

SegmentedCache disabled the listener only in the segment it panicked in, while
the cache is documented to stop calling it.
---
 src/sync/segment.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/sync/segment.rs b/src/sync/segment.rs
index a9935f6..45cf4d5 100644
--- a/src/sync/segment.rs
+++ b/src/sync/segment.rs
@@ -10,6 +10,7 @@ use crate::{
     },
     notification::EvictionListener,
     policy::{EvictionPolicy, ExpirationPolicy},
+    sim_atomic::{AtomicBool, Ordering},
     Entry, Policy, PredicateError,
 };
 
@@ -724,6 +725,7 @@ where
             max_capacity.map(|n| (n as f64 / actual_num_segments as f64).ceil() as u64);
         let seg_init_capacity =
             initial_capacity.map(|cap| (cap as f64 / actual_num_segments as f64).ceil() as usize);
+        let eviction_listener = eviction_listener.map(Self::share_listener);
         // NOTE: We cannot initialize the segments as `vec![cache; actual_num_segments]`
         // because Cache::clone() does not clone its inner but shares the same inner.
         let segments = (0..actual_num_segments)
@@ -752,6 +754,27 @@ where
         }
     }
 
+    /// Returns an eviction listener to be shared by the segments. Once the given
+    /// `listener` panicked in a segment, it will not be called by other segments too.
+    fn share_listener(listener: EvictionListener<K, V>) -> EvictionListener<K, V> {
+        use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
+
+        let is_enabled = AtomicBool::new(true);
+
+        Arc::new(move |key, value, cause| {
+            if !is_enabled.load(Ordering::Acquire) {
+                return;
+            }
+            // Safety: It is safe to assert unwind safety here because we will not
+            // call the listener again if it has been panicked.
+            let result = catch_unwind(AssertUnwindSafe(|| listener(key, value, cause)));
+            if let Err(payload) = result {
+                is_enabled.store(false, Ordering::Release);
+                resume_unwind(payload);
+            }
+        })
+    }
+
     #[inline]
     fn hash<Q>(&self, key: &Q) -> u64
     where
-- 
2.43.0


From d43bbcf3738ce722ecadd7048c252d0805066ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 24/28] fix: do not schedule a timer for an entry that is not
 admitted

---
 src/future/base_cache.rs | 5 ++++-
 src/sync/base_cache.rs   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 8965000..8afb409 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1591,7 +1591,10 @@ where
                 }) => {
                     let kh = value_entry.entry_info().key_hash();
                     freq.increment(kh.hash);
-                    if is_expiry_modified {
+                    // Do not schedule a timer for an entry that is not (or no longer)
+                    // admitted; nobody would remove it with the entry. If the entry
+                    // is admitted later, the timer will be scheduled then.
+                    if is_expiry_modified && value_entry.is_admitted() {
                         self.update_timer_wheel(&value_entry, timer_wheel);
                     }
                     deqs.move_to_back_ao(&value_entry);
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 685e945..ef37ca9 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1419,7 +1419,10 @@ where
                 }) => {
                     let kh = value_entry.entry_info().key_hash();
                     freq.increment(kh.hash);
-                    if is_expiry_modified {
+                    // Do not schedule a timer for an entry that is not (or no longer)
+                    // admitted; nobody would remove it with the entry. If the entry
+                    // is admitted later, the timer will be scheduled then.
+                    if is_expiry_modified && value_entry.is_admitted() {
                         self.update_timer_wheel(&value_entry, timer_wheel);
                     }
                     deqs.move_to_back_ao(&value_entry);
-- 
2.43.0


From 1e7d6f2db63b8ef3e29f59b7cf3b200aa572e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 25/28] Let a simulation harness choose the eviction batch size
 (cfg(moka_sim) hook)

---
 src/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 8cda06d..b8b24a6 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -84,13 +84,20 @@ pub(crate) struct HousekeeperConfig {
 }
 
 impl Default for HousekeeperConfig {
+    #[allow(unexpected_cfgs)]
     fn default() -> Self {
         Self {
             maintenance_task_timeout: Duration::from_millis(
                 DEFAULT_MAINTENANCE_TASK_TIMEOUT_MILLIS,
             ),
             max_log_sync_repeats: DEFAULT_MAX_LOG_SYNC_REPEATS as u32,
+            #[cfg(not(moka_sim))]
             eviction_batch_size: DEFAULT_EVICTION_BATCH_SIZE,
+            // A simulation harness may choose a smaller batch size.
+            #[cfg(moka_sim)]
+            eviction_batch_size: portable_atomic::sim_eviction_batch_size(
+                DEFAULT_EVICTION_BATCH_SIZE,
+            ),
         }
     }
 }
-- 
2.43.0


From 1bb660570e96885b6d63bd4615709ed5a298d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:07 +0000
Subject: [PATCH 26/28] fix: do not drop an invalidation predicate by the time
 of the newest scanned entry

The entries in the write order queue are not strictly ordered by the last modified
time, because concurrent writers may send their write ops in a different order. A
truncated scan dropped a predicate when it met an entry newer than the predicate,
and the older entries behind it became visible again.
---
 src/future/invalidator.rs | 27 +++++++--------------------
 src/sync/invalidator.rs   | 27 +++++++--------------------
 2 files changed, 14 insertions(+), 40 deletions(-)

diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index bb5e8e5..9fbbfaa 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -196,7 +196,6 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
 
         let mut invalidated = Vec::default();
-        let mut newest_timestamp = None;
 
         for candidate in &candidates {
             let key = &candidate.key;
@@ -210,11 +209,9 @@ impl<K, V, S> Invalidator<K, V, S> {
                     });
                 }
             }
-            newest_timestamp = Some(ts);
         }
 
-        let is_finished =
-            self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_finished = self.remove_finished_predicates(predicates, is_truncated);
 
         (invalidated, is_finished)
     }
@@ -246,28 +243,18 @@ where
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
-        newest_timestamp: Option<Instant>,
     ) -> bool
     where
         K: Hash + Eq,
         S: BuildHasher,
     {
-        let predicates = &mut *predicates;
-        if is_truncated {
-            if let Some(ts) = newest_timestamp {
-                let (active, finished): (Vec<_>, Vec<_>) =
-                    predicates.drain(..).partition(|p| p.is_applicable(ts));
-
-                // Remove finished predicates from the predicate registry.
-                self.remove_predicates(&finished);
-                // Set the active predicates to the scan context.
-                *predicates = active;
-            } else {
-                unreachable!();
-            }
-        } else {
+        // If there are more entries to scan, do not take a predicate as finished by the
+        // last modified time of the newest scanned entry. The entries in the write
+        // order queue are not strictly ordered by it because concurrent writers may
+        // send their write ops in a different order.
+        if !is_truncated {
             // Remove all the predicates from the predicate registry and scan context.
-            self.remove_predicates(predicates);
+            self.remove_predicates(&predicates);
             predicates.clear();
         }
         predicates.is_empty()
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 7838546..05588e9 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -196,7 +196,6 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
 
         let mut invalidated = Vec::default();
-        let mut newest_timestamp = None;
 
         for candidate in &candidates {
             let key = &candidate.key;
@@ -210,11 +209,9 @@ impl<K, V, S> Invalidator<K, V, S> {
                     });
                 }
             }
-            newest_timestamp = Some(ts);
         }
 
-        let is_finished =
-            self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_finished = self.remove_finished_predicates(predicates, is_truncated);
 
         (invalidated, is_finished)
     }
@@ -246,28 +243,18 @@ where
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
-        newest_timestamp: Option<Instant>,
     ) -> bool
     where
         K: Hash + Eq,
         S: BuildHasher,
     {
-        let predicates = &mut *predicates;
-        if is_truncated {
-            if let Some(ts) = newest_timestamp {
-                let (active, finished): (Vec<_>, Vec<_>) =
-                    predicates.drain(..).partition(|p| p.is_applicable(ts));
-
-                // Remove finished predicates from the predicate registry.
-                self.remove_predicates(&finished);
-                // Set the active predicates to the scan context.
-                *predicates = active;
-            } else {
-                unreachable!();
-            }
-        } else {
+        // If there are more entries to scan, do not take a predicate as finished by the
+        // last modified time of the newest scanned entry. The entries in the write
+        // order queue are not strictly ordered by it because concurrent writers may
+        // send their write ops in a different order.
+        if !is_truncated {
             // Remove all the predicates from the predicate registry and scan context.
-            self.remove_predicates(predicates);
+            self.remove_predicates(&predicates);
             predicates.clear();
         }
         predicates.is_empty()
-- 
2.43.0


From 70c3969a2470ea61920b92d34a0541cdd0e8890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 27/28] fix: do not move an invalidated entry behind the valid
 ones in the access order queue

A read op recorded before invalidate_all and applied after a later insert moved the
entry behind valid entries, where it was not found by the maintenance task.
---
 src/future/base_cache.rs | 8 +++++++-
 src/sync/base_cache.rs   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 8afb409..4d825c7 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1583,6 +1583,7 @@ where
         use ReadOp::{Hit, Miss};
         let mut freq = self.frequency_sketch.write().await;
         let ch = &self.read_op_ch;
+        let va = self.valid_after();
         for _ in 0..count {
             match ch.try_recv() {
                 Ok(Hit {
@@ -1597,7 +1598,12 @@ where
                     if is_expiry_modified && value_entry.is_admitted() {
                         self.update_timer_wheel(&value_entry, timer_wheel);
                     }
-                    deqs.move_to_back_ao(&value_entry);
+                    // Do not move an entry invalidated by `invalidate_all` behind the
+                    // valid entries. It would not be removed until they are removed.
+                    let lm = value_entry.last_modified();
+                    if !lm.map_or(false, |lm| is_invalid_entry(&va, lm)) {
+                        deqs.move_to_back_ao(&value_entry);
+                    }
                 }
                 Ok(Miss(hash)) => freq.increment(hash),
                 Err(_) => break,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ef37ca9..50a8bfe 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1411,6 +1411,7 @@ where
         use ReadOp::{Hit, Miss};
         let mut freq = self.frequency_sketch.write();
         let ch = &self.read_op_ch;
+        let va = self.valid_after();
         for _ in 0..count {
             match ch.try_recv() {
                 Ok(Hit {
@@ -1425,7 +1426,12 @@ where
                     if is_expiry_modified && value_entry.is_admitted() {
                         self.update_timer_wheel(&value_entry, timer_wheel);
                     }
-                    deqs.move_to_back_ao(&value_entry);
+                    // Do not move an entry invalidated by `invalidate_all` behind the
+                    // valid entries. It would not be removed until they are removed.
+                    let lm = value_entry.last_modified();
+                    if !lm.map_or(false, |lm| is_invalid_entry(&va, lm)) {
+                        deqs.move_to_back_ao(&value_entry);
+                    }
                 }
                 Ok(Miss(hash)) => freq.increment(hash),
                 Err(_) => break,
-- 
2.43.0


From ff866a040d54626e274cb6d78c4bc82d2e180c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 28/28] fix: remove the waiter when user code outside of the
 init closure panics

In the sync cache, only a panic of the `init` closure was caught. When other
user code called by `get_with`, `and_compute_with`, etc. panicked (e.g. a
`replace_if` closure, `V::clone` or an `Expiry`), the waiter stayed in the map,
and every later call on the key panicked with "Got unexpected state
`Computing`" (or never returned). Use a guard, as the future cache does.
---
 src/sync/value_initializer.rs | 87 +++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 8 deletions(-)

diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 42d02a1..996cea5 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -1,8 +1,9 @@
-use parking_lot::RwLock;
+use parking_lot::{RwLock, RwLockWriteGuard};
 use std::{
     any::{Any, TypeId},
     fmt,
     hash::{BuildHasher, Hash},
+    ops::{Deref, DerefMut},
     sync::Arc,
 };
 
@@ -40,6 +41,59 @@ impl<V> fmt::Debug for WaiterValue<V> {
 
 type Waiter<V> = MiniArc<RwLock<WaiterValue<V>>>;
 
+type WaiterMap<K, V, S> = crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>;
+
+/// Holds the write lock of our waiter while the waiter is in the map. If it is
+/// dropped while the waiter is still `Computing`, the user code called outside of
+/// the `init` closure (e.g. a `replace_if` closure, `V::clone` or `Expiry`) has been
+/// panicked. Then it removes the waiter so that others can retry.
+struct WaiterGuard<'a, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    w_key: (Arc<K>, TypeId),
+    w_hash: u64,
+    waiters: &'a WaiterMap<K, V, S>,
+    lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+}
+
+impl<K, V, S> Deref for WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    type Target = WaiterValue<V>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.lock
+    }
+}
+
+impl<K, V, S> DerefMut for WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.lock
+    }
+}
+
+impl<K, V, S> Drop for WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    fn drop(&mut self) {
+        if let WaiterValue::Computing = &*self.lock {
+            *self.lock = WaiterValue::InitClosurePanicked;
+            self.waiters.remove(self.w_hash, |k| k == &self.w_key);
+        }
+        // The write lock will be unlocked after here.
+    }
+}
+
 pub(crate) enum InitResult<V, E> {
     Initialized(V),
     ReadExisting(V),
@@ -51,7 +105,7 @@ pub(crate) struct ValueInitializer<K, V, S> {
     // try_get_with method. We use the type ID as a part of the key to ensure that
     // we can always downcast the trait object ErrorObject (in Waiter<V>) into
     // its concrete type.
-    waiters: crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>,
+    waiters: WaiterMap<K, V, S>,
 }
 
 impl<K, V, S> ValueInitializer<K, V, S>
@@ -97,7 +151,7 @@ where
         let (w_key, w_hash) = self.waiter_key_hash(key, type_id);
 
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -133,6 +187,15 @@ where
 
         // Our waiter was inserted.
 
+        // Create a guard. This will ensure to remove our waiter when the user code
+        // called below has been panicked.
+        let mut lock = WaiterGuard {
+            w_key: w_key.clone(),
+            w_hash,
+            waiters: &self.waiters,
+            lock,
+        };
+
         // Check if the value has already been inserted by other thread.
         if let Some(value) = get() {
             // Yes. Set the waiter value, remove our waiter, and return
@@ -197,7 +260,7 @@ where
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
         // NOTE: We have to acquire a write lock before `try_insert_waiter`,
         // so that any concurrent attempt will get our lock and wait on it.
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -224,6 +287,15 @@ where
 
         // Our waiter was inserted.
 
+        // Create a guard. This will ensure to remove our waiter when the user code
+        // called below has been panicked.
+        let mut lock = WaiterGuard {
+            w_key: w_key.clone(),
+            w_hash,
+            waiters: &self.waiters,
+            lock,
+        };
+
         // Get the current value.
         let ignore_if = None as Option<&mut fn(&V) -> bool>;
         let maybe_entry = cache
@@ -240,10 +312,7 @@ where
         // evaluate the closure again.
         let output = match catch_unwind(AssertUnwindSafe(|| f(maybe_entry))) {
             // Evaluated.
-            Ok(output) => {
-                *lock = WaiterValue::ReadyNone;
-                output
-            }
+            Ok(output) => output,
             // Panicked.
             Err(payload) => {
                 *lock = WaiterValue::InitClosurePanicked;
@@ -256,6 +325,7 @@ where
         let op = match post_init(output) {
             Ok(op) => op,
             Err(e) => {
+                *lock = WaiterValue::ReadyNone;
                 self.remove_waiter(w_key, w_hash);
                 return Err(e);
             }
@@ -296,6 +366,7 @@ where
                 }
             }
         };
+        *lock = WaiterValue::ReadyNone;
         self.remove_waiter(w_key, w_hash);
         result
 
-- 
2.43.0

