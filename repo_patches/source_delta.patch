From 88afdf59793de515076dd8e47451233f6d70f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 01/11] fix: keep a power-of-two capacity when shrinking to the
 initial capacity

The initial capacity is stored as given and need not be a power of two, so a
table that shrank back to it tripped the assertion in `Table::alloc` (and
poisoned the allocation lock).
---
 src/raw/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..0b24783 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1954,10 +1954,11 @@ where
             // This heuristic is intentionally pessimistic as unnecessarily shrinking
             // is an expensive operation, but it may change in the future. We also respect
             // the initial capacity to give the user a way to retain a strict minimum table
-            // size.
-            false if active_entries <= (current_capacity >> 3) => {
-                self.initial_capacity.max(current_capacity >> 1)
-            }
+            // size. Note that the initial capacity may not be a power of two.
+            false if active_entries <= (current_capacity >> 3) => self
+                .initial_capacity
+                .next_power_of_two()
+                .max(current_capacity >> 1),
 
             // Otherwise keep the capacity the same.
             //
-- 
2.43.0


From d10cd24ca880d312c98ca4786fee7fba371ef50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 02/11] fix: wake threads waiting on an aborted resize

Threads park on the state of the table that is being copied into, but a blocking
resize that was aborted unparked the state of the table being copied from. The
waiting threads were never woken.
---
 src/raw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 0b24783..d43bf58 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2068,7 +2068,9 @@ where
                         let allocated = self.get_or_alloc_next(None, next);
 
                         // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        //
+                        // Note that threads wait on the state of the table being copied to.
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From 831584ce7ad8789255fecab6a13c8a1e1d0d2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 03/11] fix: reclaim the tables of aborted resizes

A table that a blocking resize gave up on is only linked from the table being
resized. It was neither retired when the resize completed nor freed when the map
was dropped.
---
 src/raw/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index d43bf58..e6dd06c 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2483,6 +2483,22 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
+                    // Retire any tables that this resize gave up on along the way. Their entries
+                    // are also part of the new root, so only the allocations are reclaimed.
+                    //
+                    // Safety: These tables were only reachable through the previous root, which
+                    // the CAS above made unreachable.
+                    let mut aborted = table.next_table().unwrap();
+                    while aborted.raw != next.raw {
+                        let following = aborted.next_table().unwrap();
+                        unsafe {
+                            guard.defer_retire(aborted.raw, |table, collector| {
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+                        aborted = following;
+                    }
+
                     // Retire the old table.
                     //
                     // Safety: `table.raw` is a valid pointer to the table we just copied from.
-- 
2.43.0


From fc608f7e9b8c3b47fa3e5c452b8892f29ae21b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 04/11] fix: recover from a panic while allocating a table

A failed allocation (such as `reserve` with an excessive capacity) panics with the
allocation lock held. The next resize then deadlocked: the guard inside of the
poison error returned by `try_lock` was still alive when calling `lock`.
---
 src/raw/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index e6dd06c..5ca575a 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -6,7 +6,7 @@ pub(crate) mod utils;
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError, TryLockError};
 use std::{hint, panic, ptr};
 
 use self::alloc::{RawTable, Table};
@@ -1908,8 +1908,11 @@ where
         // Unlike in `init`, we do not race here to prevent unnecessary allocator pressure.
         let _allocating = match state.allocating.try_lock() {
             Ok(lock) => lock,
+            // A previous allocation panicked, e.g. due to capacity overflow. The lock does not
+            // protect any data, so this is not a problem.
+            Err(TryLockError::Poisoned(err)) => err.into_inner(),
             // Someone else is currently allocating.
-            Err(_) => {
+            Err(TryLockError::WouldBlock) => {
                 let mut spun = 0;
 
                 // Spin for a bit, waiting for the table to be initialized.
@@ -1927,7 +1930,10 @@ where
                 }
 
                 // Otherwise, we have to block.
-                state.allocating.lock().unwrap()
+                state
+                    .allocating
+                    .lock()
+                    .unwrap_or_else(PoisonError::into_inner)
             }
         };
 
-- 
2.43.0


From f573df7f9e52d1ccbbc91024d06461e85d832e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 05/11] fix: align entries such that pointers to them can be
 tagged

Three tag bits require an alignment of 8, which keys and values of a smaller
alignment did not guarantee: allocators may return less aligned memory.
---
 src/raw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 5ca575a..6c22bea 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -119,7 +119,9 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+//
+// The alignment makes room for the tag bits in pointers to entries.
+#[repr(C, align(8))]
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0


From 8636c71d1b9faaaa7553d0afc1289547e4c9d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 06/11] fix: do not leak the new entry if a compute closure
 panics

An entry that was already allocated by an earlier attempt (one that lost a race)
was leaked together with its key if the closure panicked on a later attempt.
---
 src/raw/mod.rs | 61 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 6c22bea..bd03254 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -7,7 +7,7 @@ use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
 use std::sync::{Mutex, PoisonError, TryLockError};
-use std::{hint, panic, ptr};
+use std::{hint, mem, panic, ptr};
 
 use self::alloc::{RawTable, Table};
 use self::probe::Probe;
@@ -1281,13 +1281,39 @@ where
         }
     }
 
+    /// Performs a state transition.
+    ///
+    /// # Safety
+    ///
+    /// The entry pointer must be valid for reads if provided, and `new_entry` must not have
+    /// been inserted into the map.
+    #[inline]
+    unsafe fn next(
+        &mut self,
+        entry: Option<*mut Entry<K, V>>,
+        new_entry: &mut LazyEntry<K, V>,
+    ) -> Operation<V, T> {
+        // Do not leak the entry if the closure panics.
+        let new_entry = DeallocOnDrop(new_entry);
+
+        // Safety: Guaranteed by caller.
+        let operation = unsafe { self.transition(entry) };
+
+        if entry.is_none() && matches!(operation, Operation::Remove) {
+            panic!("Cannot remove `None` entry.");
+        }
+
+        mem::forget(new_entry);
+        operation
+    }
+
     /// Performs a state transition.
     ///
     /// # Safety
     ///
     /// The entry pointer must be valid for reads if provided.
     #[inline]
-    unsafe fn next(&mut self, entry: Option<*mut Entry<K, V>>) -> Operation<V, T> {
+    unsafe fn transition(&mut self, entry: Option<*mut Entry<K, V>>) -> Operation<V, T> {
         let Some(entry) = entry else {
             // If there is no current entry, perform a transition for the insert.
             return match self.insert.take() {
@@ -1380,6 +1406,19 @@ impl<K, V> LazyEntry<K, V> {
     }
 }
 
+/// Deallocates an entry that was not inserted into the map, if it was allocated.
+struct DeallocOnDrop<'a, K, V>(&'a mut LazyEntry<K, V>);
+
+impl<K, V> Drop for DeallocOnDrop<'_, K, V> {
+    fn drop(&mut self) {
+        if let LazyEntry::Init(entry) = *self.0 {
+            // Safety: The entry was allocated but not inserted into the map. Additionally,
+            // the value of such an entry is uninitialized or has been moved out.
+            let _ = unsafe { Box::from_raw(entry) };
+        }
+    }
+}
+
 /// RMW operations.
 impl<K, V, S> HashMap<K, V, S>
 where
@@ -1563,9 +1602,9 @@ where
             // Compute the value to insert.
             //
             // Safety: Insert transitions are always sound.
-            match unsafe { state.next(None) } {
+            match unsafe { state.next(None, new_entry) } {
                 op @ Operation::Insert(_) => state.restore(None, op),
-                Operation::Remove => panic!("Cannot remove `None` entry."),
+                Operation::Remove => unreachable!(),
                 Operation::Abort(value) => return Compute::Aborted(value),
             }
 
@@ -1596,9 +1635,9 @@ where
                     // Compute the value to insert.
                     //
                     // Safety: Insert transitions are always sound.
-                    let value = match unsafe { state.next(None) } {
+                    let value = match unsafe { state.next(None, new_entry) } {
                         Operation::Insert(value) => value,
-                        Operation::Remove => panic!("Cannot remove `None` entry."),
+                        Operation::Remove => unreachable!(),
                         Operation::Abort(value) => return Compute::Aborted(value),
                     };
 
@@ -1694,7 +1733,7 @@ where
                     // Compute the value to insert.
                     //
                     // Safety: `entry` is valid for reads.
-                    let failure = match unsafe { state.next(Some(entry.ptr)) } {
+                    let failure = match unsafe { state.next(Some(entry.ptr), new_entry) } {
                         // The operation was aborted.
                         Operation::Abort(value) => return Compute::Aborted(value),
 
@@ -1801,7 +1840,7 @@ where
                             // Compute the next operation.
                             //
                             // Safety: Insert transitions are always sound.
-                            match unsafe { state.next(None) } {
+                            match unsafe { state.next(None, new_entry) } {
                                 Operation::Insert(value) => {
                                     // Save the computed value.
                                     state.restore(None, Operation::Insert(value));
@@ -1810,7 +1849,7 @@ where
                                     probe.next(table.mask);
                                     continue 'probe;
                                 }
-                                Operation::Remove => panic!("Cannot remove `None` entry."),
+                                Operation::Remove => unreachable!(),
                                 Operation::Abort(value) => return Compute::Aborted(value),
                             }
                         }
@@ -1832,7 +1871,7 @@ where
             // Otherwise, the key is not in the map.
             //
             // Safety: Insert transitions are always sound.
-            match unsafe { state.next(None) } {
+            match unsafe { state.next(None, new_entry) } {
                 // Need to insert into the new table.
                 op @ Operation::Insert(_) => {
                     table = self.prepare_retry_insert(None, &mut help_copy, table, guard);
@@ -1840,7 +1879,7 @@ where
                 }
                 // The operation was aborted.
                 Operation::Abort(value) => return Compute::Aborted(value),
-                Operation::Remove => panic!("Cannot remove `None` entry."),
+                Operation::Remove => unreachable!(),
             }
         }
     }
-- 
2.43.0


From 9646059e1fa73eeddf18189c8d6782998f10714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 07/11] fix: keep incremental resize chunks within the bounds
 of the table

With a chunk size of zero no helper ever copied anything, so that iteration and
other operations that complete a resize spun forever. With huge chunk sizes the
claim counter wrapped around and entries were copied more than once.
---
 src/raw/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index bd03254..f244994 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2254,6 +2254,10 @@ where
             return table;
         };
 
+        // Every helper has to make progress, and the claim counter must not overflow, so a chunk
+        // contains at least one entry and at most the entire table.
+        let chunk = chunk.clamp(1, table.len());
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From 4be6782ee5f9b425428945a373c78631f426da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 08/11] fix: HashSet::insert keeps an element that is already
 present

As documented, the stored element is not replaced by an equal one.
---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..4bda0de 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -427,10 +427,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
@@ -773,10 +773,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
-- 
2.43.0


From 983019818bff23ab38c98bdb765f04a176026350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 09/11] fix: a HashSet is Sync only if its elements are Send

Elements may be dropped by any thread that shares the set.
---
 src/set.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 4bda0de..801f601 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -21,8 +21,11 @@ pub struct HashSet<K, S = RandomState> {
 // Safety: We only ever hand out &K through shared references to the map,
 // so normal Send/Sync rules apply. We never expose owned or mutable references
 // to keys or values.
+//
+// However, `Sync` also requires `K: Send`, as keys may be removed and dropped on a
+// different thread than they were created on through shared access to the `HashSet`.
 unsafe impl<K: Send, S: Send> Send for HashSet<K, S> {}
-unsafe impl<K: Sync, S: Sync> Sync for HashSet<K, S> {}
+unsafe impl<K: Send + Sync, S: Sync> Sync for HashSet<K, S> {}
 
 /// A builder for a [`HashSet`].
 ///
-- 
2.43.0


From bab19e83edaad520edb1f088358606098ade1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:37 +0000
Subject: [PATCH 10/11] fix: dropping a map whose resize was interrupted by a
 panicking Hash freed entries twice

A blocking resize that abandons a full target and is then interrupted by a panic leaves
copies of the same entries in two nested tables.
---
 src/raw/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index f244994..e871b9e 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2801,6 +2801,7 @@ impl<K, V, S> Drop for HashMap<K, V, S> {
         unsafe { self.collector.reclaim_all() };
 
         // Drop all nested tables and entries.
+        let mut root = true;
         while !raw.is_null() {
             // Safety: The root and next tables are always valid pointers to a
             // table allocation, or null.
@@ -2809,9 +2810,13 @@ impl<K, V, S> Drop for HashMap<K, V, S> {
             // Read the next table pointer before dropping the current one.
             let next = *table.state_mut().next.get_mut();
 
-            // Safety: We have unique access to the table and do
-            // not access the entries after this call.
-            unsafe { drop_entries(table) };
+            // In blocking mode, the root table contains every entry until the resize completes. If
+            // it never did, because the user's `Hash` panicked, nested tables only contain copies.
+            if root || self.is_incremental() {
+                // Safety: We have unique access to the table and do
+                // not access the entries after this call.
+                unsafe { drop_entries(table) };
+            }
 
             // Safety: We have unique access to the table and do
             // not access it after this call.
@@ -2819,6 +2824,7 @@ impl<K, V, S> Drop for HashMap<K, V, S> {
 
             // Continue for all nested tables.
             raw = next;
+            root = false;
         }
     }
 }
@@ -2834,7 +2840,7 @@ unsafe fn drop_entries<K, V>(table: Table<Entry<K, V>>) {
         let entry = unsafe { (*table.entry(i).as_ptr()).unpack() };
 
         // The entry was copied, or there is nothing to deallocate.
-        if entry.ptr.is_null() || entry.tag() & Entry::COPYING != 0 {
+        if entry.ptr.is_null() || entry.tag() & Entry::COPIED != 0 {
             continue;
         }
 
-- 
2.43.0


From 8ad32dd728a42c9a7696897629e0841e2149a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:37 +0000
Subject: [PATCH 11/11] sim: let simulated builds choose the chunks of blocking
 resizes (cfg papaya_sim)

---
 src/raw/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index e871b9e..70526ec 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2060,6 +2060,7 @@ where
     /// Help along the resize operation until it completes and the next table is promoted.
     ///
     /// Should only be called on the root table.
+    #[allow(unexpected_cfgs)]
     fn help_copy_blocking(
         &self,
         table: &Table<Entry<K, V>>,
@@ -2081,6 +2082,10 @@ where
 
             let copy_chunk = table.len().min(4096);
 
+            // Simulated builds explore smaller chunks.
+            #[cfg(papaya_sim)]
+            let copy_chunk = copy_chunk.min(std::rt::copy_chunk());
+
             loop {
                 // Every entry has already been claimed.
                 if next.state().claim.load(Ordering::Relaxed) >= table.len() {
-- 
2.43.0

