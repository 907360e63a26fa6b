From 0bb32bab347708723ab39cfbe56cbdc995ff0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 01/41] fix: replace_in_list compared the expected value with
 the index suffix of the stored value

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From 97565bbba0af241e6734dfc6a4d0d7fb593f5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 02/41] fix: removing the only element of a queue moved both
 its head and its tail

---
 src/queues.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..16a1a1b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -270,8 +270,7 @@ impl CandyStore {
             let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
             if queue.head_idx == idx {
                 queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
+            } else if queue.tail_idx == idx + 1 {
                 queue.tail_idx -= 1;
             }
             queue.num_items -= 1;
-- 
2.43.0


From 105193fa0cc0db389b4c05d039baa3fc1a8dd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 03/41] fix: popping from a list returned the value seen while
 iterating, not the one that was removed

---
 src/lists.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..ced820e 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -684,8 +684,8 @@ impl CandyStore {
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
         for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
+            let (k, _) = kv?;
+            if let Some(v) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
                 return Ok(Some((k, v)));
             }
         }
@@ -700,8 +700,8 @@ impl CandyStore {
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
         for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
+            let (k, _) = kv?;
+            if let Some(v) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
                 return Ok(Some((k, v)));
             }
         }
-- 
2.43.0


From 8414c56e060b3d4707370c81c64d3145973ea237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 04/41] fix: iterating over a typed queue panicked on
 undecodable values

---
 src/typed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed.rs b/src/typed.rs
index c857692..5da8f5d 100644
--- a/src/typed.rs
+++ b/src/typed.rs
@@ -703,7 +703,7 @@ where
         let queue_key = CandyTypedList::<L, (), ()>::make_list_key(queue_key);
         self.store.iter_queue(&queue_key).map(|res| match res {
             Err(e) => Err(e),
-            Ok((idx, v)) => Ok((idx, from_bytes::<V>(&v).unwrap())),
+            Ok((idx, v)) => Ok((idx, from_bytes::<V>(&v)?)),
         })
     }
 
@@ -720,7 +720,7 @@ where
             .iter_queue_backwards(&queue_key)
             .map(|res| match res {
                 Err(e) => Err(e),
-                Ok((idx, v)) => Ok((idx, from_bytes::<V>(&v).unwrap())),
+                Ok((idx, v)) => Ok((idx, from_bytes::<V>(&v)?)),
             })
     }
 
-- 
2.43.0


From 2a0dd4520bdaec85f006082a237f023dd32e8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 05/41] fix: flush did not sync the compaction target, which
 holds the newest version of compacted rows

---
 src/shard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6859359..b0dd2fe 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -529,7 +529,12 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        let files_guard = self.files.read();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // rows that were already compacted are written to the target file
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 12c5bb8f42bf40582821f616d837c3c2be766e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 06/41] fix: flush_aggregation re-acquired the files lock and
 could deadlock behind a waiting writer

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index b0dd2fe..58f18e1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -529,7 +529,8 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        let files_guard = self.files.read();
+        // recursive, as flush_aggregation() is called by operations that already hold `files` for reading
+        let files_guard = self.files.read_recursive();
         files_guard.0.file.sync_data()?;
         if let Some(ref target) = files_guard.1 {
             // rows that were already compacted are written to the target file
-- 
2.43.0


From 97936d3f7b599e954f52ed3133e6cb5fd8696dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 07/41] fix: splitting a shard that covers a single selector
 lost its contents

---
 src/shard.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 58f18e1..4bf0823 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -547,6 +547,12 @@ impl Shard {
 
         let files_guard = self.files.write();
 
+        ensure!(
+            self.span.end - self.span.start > 1,
+            "shard {:?} is full and cannot be split any further",
+            self.span
+        );
+
         let mid = (self.span.start + self.span.end) / 2;
 
         let t0 = Instant::now();
-- 
2.43.0


From 9e8b3c4bbadcd14c21e3bd0fa7f3986108eebb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 08/41] fix: split and merge ignored rows that a failed
 compaction had already moved to the new file

---
 src/shard.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 4bf0823..56ac879 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -547,6 +547,11 @@ impl Shard {
 
         let files_guard = self.files.write();
 
+        ensure!(
+            files_guard.1.is_none(),
+            "compaction of shard {:?} failed, it cannot be split until it is reopened",
+            self.span
+        );
         ensure!(
             self.span.end - self.span.start > 1,
             "shard {:?} is full and cannot be split any further",
@@ -647,6 +652,13 @@ impl Shard {
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
 
+        ensure!(
+            bottom_files.1.is_none() && top_files.1.is_none(),
+            "compaction of shards {:?} or {:?} failed, they cannot be merged until they are reopened",
+            bottom.span,
+            top.span
+        );
+
         let tmp_filename = bottom.config.dir_path.join(format!(
             "merge_{:04x}-{:04x}",
             bottom.span.start, top.span.end
-- 
2.43.0


From 9690f8974a815161904b3504b5b94625499439ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 09/41] fix: a compaction that could not be started blocked the
 shard from ever being compacted or split

---
 src/shard.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 56ac879..0aac0a8 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -279,6 +279,8 @@ impl CompactionThreadPool {
         let (tx, rx) = crossbeam_channel::unbounded::<
             Option<(CompactionInfo, crossbeam_channel::Sender<Result<()>>)>,
         >();
+        // at least one, or compactions would never start
+        let num_threads = num_threads.max(1);
         let mut threads = Vec::with_capacity(num_threads);
         for _ in 0..num_threads {
             let rx = rx.clone();
@@ -964,8 +966,8 @@ impl Shard {
         ));
         let target = MmapFile::create(&target_filename, &self.config)?;
         target.header().compacted_up_to.store(0, Ordering::Release);
-        files_guard.1 = Some(target);
 
+        // the compaction thread can only start once we release `files`
         let handle = self.threadpool.submit(CompactionInfo {
             files: self.files.clone(),
             stats: self.stats.clone(),
@@ -975,6 +977,7 @@ impl Shard {
             src_filename,
             target_filename,
         })?;
+        files_guard.1 = Some(target);
         *handle_guard = Some(handle);
 
         Ok(())
-- 
2.43.0


From f0170c7be4b4c6bb5fa8ba7c6cc2d805638462aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 10/41] fix: resuming an interrupted compaction kept stale
 entries of the partially copied row

---
 src/shard.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 0aac0a8..adf933a 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -487,7 +487,6 @@ impl Shard {
         stats: &InternalStats,
         config: &InternalConfig,
     ) -> Result<()> {
-        let mut first_row = true;
         loop {
             let row_idx = target.header().compacted_up_to.load(Ordering::Acquire);
             if row_idx >= NUM_ROWS {
@@ -499,31 +498,31 @@ impl Shard {
             let target_row = target.row_mut(row_idx);
             let mut target_col = 0;
 
+            // an interrupted compaction may have left a partial copy of this row
+            target_row.signatures = [INVALID_SIG; ROW_WIDTH];
+
             for (src_col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
                 }
                 let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
 
-                assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
-                    "row={row_idx} col={target_col} sig={}",
-                    target_row.signatures[target_col]
-                );
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
                 target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
                 target_row.signatures[target_col] = ph.signature();
-                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 target_col += 1;
             }
 
+            target
+                .header()
+                .num_inserts
+                .fetch_add(target_col as u64, Ordering::Relaxed);
             target
                 .header()
                 .compacted_up_to
                 .fetch_add(1, Ordering::Release);
-            first_row = false;
         }
 
         Ok(())
-- 
2.43.0


From d673babcc203026af4347ba90d6f95fed90d5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 11/41] fix: failing to open the leftover of an interrupted
 compaction was silently ignored

---
 src/shard.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index adf933a..a5490d2 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -425,15 +425,19 @@ impl Shard {
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            match OpenOptions::new()
                 .read(true)
                 .write(true)
                 .open(&compacted_filename)
             {
-                let target = MmapFile::new(compacted_file, config.mlock_headers)?;
-                Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
-                std::fs::rename(compacted_filename, filename)?;
-                mmap_file = target;
+                Ok(compacted_file) => {
+                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                    Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                    std::fs::rename(compacted_filename, filename)?;
+                    mmap_file = target;
+                }
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                Err(e) => return Err(e.into()),
             }
         }
 
-- 
2.43.0


From a2f31dc13d1ec225d8dd9d95d2b069c4c1f7a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 12/41] fix: calculating the number of shards for more than
 1.9G keys panicked

---
 src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..fb19c28 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -167,7 +167,7 @@ impl ShardRouter {
     fn calc_step(num_items: usize) -> u32 {
         let step = (Self::END_OF_SHARDS as f64)
             / (num_items as f64 / Shard::EXPECTED_CAPACITY as f64).max(1.0);
-        1 << (step as u32).ilog2()
+        1 << (step as u32).max(1).ilog2()
     }
     pub(crate) fn calc_num_shards(num_items: usize) -> u32 {
         Self::END_OF_SHARDS / Self::calc_step(num_items)
-- 
2.43.0


From 47d87addca26f9ae57fb593c82a55d0144dd4c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 13/41] fix: the cookie of an exhausted iterator restarted the
 iteration

---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 74d9877..3b1afed 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: (cookie >> 32) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From 2f8fc140a661d9480d57908f410c5d6062933b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 14/41] fix: extend_queue ran the caller's iterator while
 holding the queue's lock

---
 src/queues.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/queues.rs b/src/queues.rs
index 16a1a1b..5e2546c 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -329,6 +329,10 @@ impl CandyStore {
     ) -> Result<Range<usize>> {
         let queue_key = queue_key.as_ref();
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
+
+        // don't run the caller's iterator while holding the lock
+        let items = items.collect::<Vec<_>>();
+
         let _guard = self.lock_list(queue_ph);
 
         let mut queue_bytes = &mut self
-- 
2.43.0


From 184d42134ec2847d37b49b3b0e7f898e284d6b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 15/41] fix: empty big values were not stored and extending by
 nothing left an empty queue behind

---
 src/queues.rs | 6 +++++-
 src/store.rs  | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 5e2546c..1fecc6e 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -360,7 +360,11 @@ impl CandyStore {
         }
 
         let indices = first_idx as usize..queue.tail_idx as usize;
-        self.set_raw(&full_queue_key, &queue_bytes)?;
+        if queue.is_empty() {
+            self.remove_raw(&full_queue_key)?;
+        } else {
+            self.set_raw(&full_queue_key, &queue_bytes)?;
+        }
 
         Ok(indices)
     }
diff --git a/src/store.rs b/src/store.rs
index 3b1afed..03c3df2 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -530,7 +530,13 @@ impl CandyStore {
         val: &B2,
     ) -> Result<bool> {
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        let val = val.as_ref();
+        if val.is_empty() {
+            // an empty value is kept as a single empty chunk
+            self.extend_queue(key, std::iter::once(val))?;
+        } else {
+            self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
+        }
         Ok(existed)
     }
 
-- 
2.43.0


From c43bd2b792f6fda1f1e08ed8313fe19bb15def16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 16/41] fix: oversized list and queue elements were rejected
 only after the collection had been modified

---
 src/lists.rs  | 12 ++++++++++++
 src/queues.rs | 17 +++++++++++++++++
 src/store.rs  | 38 +++++++++++++++++++++++---------------
 3 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index ced820e..fb7699d 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -138,6 +138,15 @@ impl CandyStore {
         (PartedHash::new(&self.config.hash_seed, &item_key), item_key)
     }
 
+    // an element that cannot be stored must be rejected before the list is modified
+    fn ensure_list_item_sizes(&self, list_key: &[u8], item_key: &[u8], val: &[u8]) -> Result<()> {
+        self.ensure_total_sizes(list_key.len() + LIST_NAMESPACE.len(), size_of::<List>())?;
+        self.ensure_total_sizes(
+            item_key.len() + size_of::<PartedHash>() + ITEM_NAMESPACE.len(),
+            val.len() + size_of::<u64>(),
+        )
+    }
+
     pub(crate) fn lock_list(&self, list_ph: PartedHash) -> MutexGuard<()> {
         self.keyed_locks[(list_ph.signature() & self.keyed_locks_mask) as usize].lock()
     }
@@ -149,6 +158,8 @@ impl CandyStore {
         mut val: Vec<u8>,
         mode: InsertMode,
     ) -> Result<InsertToListStatus> {
+        self.ensure_list_item_sizes(&list_key, &item_key, &val)?;
+
         let (list_ph, list_key) = self.make_list_key(list_key);
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
 
@@ -297,6 +308,7 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            self.ensure_list_item_sizes(&list_key, &item_key, &val)?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 1fecc6e..9de270a 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,7 +111,21 @@ impl CandyStore {
         item_key
     }
 
+    // an element that cannot be stored must be rejected before the queue is modified
+    pub(crate) fn ensure_queue_item_sizes(&self, queue_key: &[u8], val_len: usize) -> Result<()> {
+        self.ensure_total_sizes(
+            queue_key.len() + QUEUE_NAMESPACE.len(),
+            size_of::<Queue>(),
+        )?;
+        self.ensure_total_sizes(
+            queue_key.len() + size_of::<u64>() + QUEUE_ITEM_NAMESPACE.len(),
+            val_len,
+        )
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
+        self.ensure_queue_item_sizes(queue_key, val.len())?;
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
@@ -332,6 +346,9 @@ impl CandyStore {
 
         // don't run the caller's iterator while holding the lock
         let items = items.collect::<Vec<_>>();
+        for item in items.iter() {
+            self.ensure_queue_item_sizes(queue_key, item.as_ref().len())?;
+        }
 
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 03c3df2..42e50fd 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,37 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    // checks that an entry can be stored, where the key already includes the namespace
+    pub(crate) fn ensure_total_sizes(&self, full_key_len: usize, val_len: usize) -> Result<()> {
         ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key_len + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key_len + val_len,
                 self.config.max_shard_size as usize
             )));
         }
 
+        Ok(())
+    }
+
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+
+        self.ensure_total_sizes(full_key.len(), val.len())?;
+
         self.root.insert(ph, full_key, val, mode)
     }
 
@@ -529,8 +536,9 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
-        let existed = self.discard_queue(key)?;
         let val = val.as_ref();
+        self.ensure_queue_item_sizes(key.as_ref(), val.len().min(MAX_VALUE_SIZE))?;
+        let existed = self.discard_queue(key)?;
         if val.is_empty() {
             // an empty value is kept as a single empty chunk
             self.extend_queue(key, std::iter::once(val))?;
-- 
2.43.0


From 9568bf9fb0efbb2cb2e25706a80ff789484405e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 17/41] fix: merging an unbalanced tree of shards deadlocked on
 its own locks

---
 src/router.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index fb19c28..8dd6543 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -430,6 +430,10 @@ impl ShardRouter {
                 }
             }
             (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
+                // release the nodes, we'll lock them again. no one else can reach them, as our caller holds the
+                // root for writing
+                let (b, t) = (b.clone(), t.clone());
+                drop((bottom_guard, top_guard));
                 if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
                     self._merge(bottom, &merged_top, max_fill, shards_to_remove)
                 } else {
@@ -437,6 +441,8 @@ impl ShardRouter {
                 }
             }
             (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
+                let (b, t) = (b.clone(), t.clone());
+                drop((bottom_guard, top_guard));
                 if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
                     self._merge(&merged_bottom, top, max_fill, shards_to_remove)
                 } else {
@@ -444,8 +450,11 @@ impl ShardRouter {
                 }
             }
             (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
+                let (b1, t1) = (b1.clone(), t1.clone());
+                let (b2, t2) = (b2.clone(), t2.clone());
+                drop((bottom_guard, top_guard));
+                let m1 = self._merge(&b1, &t1, max_fill, shards_to_remove)?;
+                let m2 = self._merge(&b2, &t2, max_fill, shards_to_remove)?;
                 match (m1, m2) {
                     (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
                     (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-- 
2.43.0


From d18417b2fdbebbfe7e00a8c80d70b616a4520fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 18/41] fix: a failing merge left the store using files that
 were already merged and deleted

---
 src/router.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 8dd6543..e06927d 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -487,10 +487,10 @@ impl ShardRouter {
         {
             let mut guard = self.node.write();
 
-            match &*guard {
-                ShardNode::Leaf(_) => None,
+            let res = match &*guard {
+                ShardNode::Leaf(_) => Ok(None),
                 ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
+                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)
                 }
             };
 
@@ -499,6 +499,9 @@ impl ShardRouter {
                 &self.stats,
                 &self.threadpool,
             );
+
+            // even if merging failed, some shards may have been merged, so we must use the new tree
+            res?;
         }
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
-- 
2.43.0


From ae378aaf80de0d8c779c3bf8fefa62119b1fc06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 19/41] fix: clear and merge_small_shards raced with running
 background compactions

---
 src/router.rs | 17 +++++++++++++++++
 src/shard.rs  |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index e06927d..b547b8a 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -294,9 +294,23 @@ impl ShardRouter {
         }
     }
 
+    fn wait_for_compactions(node: &ShardNode) -> Result<()> {
+        match node {
+            ShardNode::Leaf(sh) => sh.wait_for_compaction(),
+            ShardNode::Vertex(bottom, top) => {
+                let res = Self::wait_for_compactions(&bottom.node.read());
+                Self::wait_for_compactions(&top.node.read())?;
+                res
+            }
+        }
+    }
+
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
 
+        // running compactions would rename their files after we've removed them. it doesn't matter if they fail
+        _ = Self::wait_for_compactions(&guard);
+
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -487,6 +501,9 @@ impl ShardRouter {
         {
             let mut guard = self.node.write();
 
+            // we're about to reopen all of the shards, so none of them may be compacted in the meantime
+            Self::wait_for_compactions(&guard)?;
+
             let res = match &*guard {
                 ShardNode::Leaf(_) => Ok(None),
                 ShardNode::Vertex(bottom, top) => {
diff --git a/src/shard.rs b/src/shard.rs
index a5490d2..adff4b9 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -923,7 +923,7 @@ impl Shard {
         Ok(TryReplaceStatus::KeyDoesNotExist(row_guard, had_collision))
     }
 
-    fn wait_for_compaction(&self) -> Result<()> {
+    pub(crate) fn wait_for_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
-- 
2.43.0


From 07e2f898bbe6ef477008450ae19edf649859ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 20/41] fix: clearing a shard of an unsupported version brought
 back the leftover of its compaction

---
 src/shard.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index adff4b9..d41c1e6 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -371,6 +371,7 @@ impl Shard {
             .open(&filename)?;
 
         let mut file_size = file.metadata()?.len();
+        let mut cleared = truncate;
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
             let sz = file.read(bytes_of_mut(&mut meta_header))?;
@@ -381,6 +382,7 @@ impl Shard {
                 if config.clear_on_unsupported_version {
                     file.set_len(0)?;
                     file_size = 0;
+                    cleared = true;
                 } else {
                     bail!(
                         "{filename:?} unsupported magic={:?} version=0x{:016x} size={}",
@@ -395,6 +397,7 @@ impl Shard {
                 if config.clear_on_unsupported_version {
                     file.set_len(0)?;
                     file_size = 0;
+                    cleared = true;
                 } else {
                     bail!("corrupt shard file (size={})", file_size);
                 }
@@ -422,7 +425,7 @@ impl Shard {
         let compacted_filename = config
             .dir_path
             .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
-        if truncate {
+        if cleared {
             _ = std::fs::remove_file(compacted_filename);
         } else {
             match OpenOptions::new()
-- 
2.43.0


From e3f864390ed72c1107f3a86c0c27c85cee8fce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 21/41] fix: with flush_aggregation, changes were acknowledged
 although syncing them had failed

---
 src/shard.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index d41c1e6..4ea6dad 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -345,7 +345,7 @@ pub(crate) struct Shard {
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
     #[cfg(feature = "flush_aggregation")]
-    sync_agg_mutex: parking_lot::Mutex<()>,
+    sync_agg_mutex: parking_lot::Mutex<bool>, // whether the last sync succeeded
     #[cfg(feature = "flush_aggregation")]
     in_sync_agg_delay: std::sync::atomic::AtomicBool,
 }
@@ -453,7 +453,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -481,7 +481,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -855,17 +855,22 @@ impl Shard {
             self.flush()
         };
 
-        if let Some(_guard) = self.sync_agg_mutex.try_lock() {
+        if let Some(mut guard) = self.sync_agg_mutex.try_lock() {
             // we're the first ones here. wait for the aggregation duration and sync the file
-            do_sync()?;
+            let res = do_sync();
+            *guard = res.is_ok();
+            res?;
         } else {
             // another thread is currently sync'ing, we're waiting in line. if the holder of the lock is in the
             // sleep (aggregation) phase, we can just wait for it to finish and return -- the other thread will
-            // have sync'ed us by the time we got the lock. otherwise, we'll need to sync as well
+            // have sync'ed us by the time we got the lock. otherwise, or if it failed to sync, we'll need to sync
+            // as well
             let was_in_delay = self.in_sync_agg_delay.load(Ordering::Relaxed);
-            let _guard = self.sync_agg_mutex.lock();
-            if !was_in_delay {
-                do_sync()?;
+            let mut guard = self.sync_agg_mutex.lock();
+            if !was_in_delay || !*guard {
+                let res = do_sync();
+                *guard = res.is_ok();
+                res?;
             }
         }
         Ok(())
-- 
2.43.0


From d225c30151008c48226a2081b9b1c02376e3e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 22/41] fix: CandyTypedList::get_or_create accepted default
 values of a type other than the list's

---
 src/typed.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/typed.rs b/src/typed.rs
index 5da8f5d..a01db36 100644
--- a/src/typed.rs
+++ b/src/typed.rs
@@ -366,6 +366,7 @@ where
     where
         L: Borrow<Q1>,
         K: Borrow<Q2>,
+        V: Borrow<Q3>,
     {
         let list_key = Self::make_list_key(list_key);
         let item_key = item_key.to_bytes::<LE>();
-- 
2.43.0


From 29fa17adb9d308bdb8faa57e54524477c78785a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 23/41] fix: the leftover of an interrupted compaction was
 adopted without checking its magic and version

---
 src/shard.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 4ea6dad..015ed0c 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -371,7 +371,7 @@ impl Shard {
             .open(&filename)?;
 
         let mut file_size = file.metadata()?.len();
-        let mut cleared = truncate;
+        let mut cleared = truncate || file_size == 0;
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
             let sz = file.read(bytes_of_mut(&mut meta_header))?;
@@ -433,7 +433,26 @@ impl Shard {
                 .write(true)
                 .open(&compacted_filename)
             {
-                Ok(compacted_file) => {
+                Ok(mut compacted_file) => {
+                    let compacted_size = compacted_file.metadata()?.len();
+                    let mut meta_header = MetaHeader::default();
+                    let sz = compacted_file.read(bytes_of_mut(&mut meta_header))?;
+                    let never_used = compacted_size < HEADER_SIZE
+                        || (meta_header.magic == [0; 8] && meta_header.version == 0);
+                    if !never_used
+                        && (sz != size_of::<MetaHeader>()
+                            || meta_header.magic != SHARD_FILE_MAGIC
+                            || meta_header.version != SHARD_FILE_VERSION)
+                    {
+                        bail!(
+                            "{compacted_filename:?} unsupported magic={:?} version=0x{:016x} size={}",
+                            meta_header.magic,
+                            meta_header.version,
+                            compacted_size,
+                        );
+                    }
+
+                    // note: if we crashed while it was being created, we'll compact from the beginning
                     let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                     Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
                     std::fs::rename(compacted_filename, filename)?;
-- 
2.43.0


From ad4942f72da93ff5d7b152dd0092d54154c4adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 24/41] fix: shard files whose type could not be determined
 were silently skipped

---
 src/router.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index b547b8a..b75adb0 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -109,10 +109,7 @@ impl ShardRouter {
             let Some(filename) = filename.to_str() else {
                 continue;
             };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
+            if !entry.file_type()?.is_file() {
                 continue;
             }
             if filename.starts_with("bottom_")
@@ -317,10 +314,7 @@ impl ShardRouter {
             let Some(filename) = filename.to_str() else {
                 continue;
             };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
+            if !entry.file_type()?.is_file() {
                 continue;
             }
             if filename.starts_with("shard_")
-- 
2.43.0


From 11e4a4b6f4b8e0d7fa4f9f0b3f29d93371c89da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 25/41] fix: failing to remove the leftover compaction of a
 cleared shard was ignored

---
 src/shard.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 015ed0c..5811fe0 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -426,7 +426,10 @@ impl Shard {
             .dir_path
             .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         if cleared {
-            _ = std::fs::remove_file(compacted_filename);
+            match std::fs::remove_file(compacted_filename) {
+                Err(e) if e.kind() != std::io::ErrorKind::NotFound => return Err(e.into()),
+                _ => {}
+            }
         } else {
             match OpenOptions::new()
                 .read(true)
-- 
2.43.0


From 7cce50739bfa68e4096f55ef85881d754a37a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 26/41] fix: a list removal that stopped half way left an
 element outside of the list, whose position was reused

---
 src/lists.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index fb7699d..4cf5086 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -449,6 +449,17 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // remove item. the item goes first and the list last, so that if we stop in the middle we're only left
+        // with a hole
+        self.remove_raw(&item_key)?;
+
+        // remove chain
+        self.remove_raw(bytes_of(&ChainKey {
+            list_ph,
+            idx: item_idx,
+            namespace: CHAIN_NAMESPACE,
+        }))?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(&list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -469,16 +480,6 @@ impl CandyStore {
             }
         }
 
-        // remove chain
-        self.remove_raw(bytes_of(&ChainKey {
-            list_ph,
-            idx: item_idx,
-            namespace: CHAIN_NAMESPACE,
-        }))?;
-
-        // remove item
-        self.remove_raw(&item_key)?;
-
         Ok(Some(existing_val))
     }
 
-- 
2.43.0


From f80b7c723a75f63827c82cb021564bbcf77019ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 27/41] fix: a list discard that stopped half way left elements
 that are not part of the list

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 4cf5086..fbc7d4a 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -651,12 +651,12 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From f83f92c1e448f972524a4d8fae1e5c91f0dc0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 28/41] fix: promoting an existing list element reported that
 it was newly created

set_in_list_promoting returned CreatedNew even if the element existed
---
 src/lists.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index fbc7d4a..44da138 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -307,12 +307,17 @@ impl CandyStore {
         val: Vec<u8>,
         promote: bool,
     ) -> Result<SetStatus> {
+        let mut removed_val = None;
         if promote {
             self.ensure_list_item_sizes(&list_key, &item_key, &val)?;
-            self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
+            removed_val = self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
-            InsertToListStatus::Created(_v) => Ok(SetStatus::CreatedNew),
+            // when promoting, the item was removed just before
+            InsertToListStatus::Created(_v) => match removed_val {
+                Some(v) => Ok(SetStatus::PrevValue(v)),
+                None => Ok(SetStatus::CreatedNew),
+            },
             InsertToListStatus::Replaced(v) => Ok(SetStatus::PrevValue(v)),
             _ => unreachable!(),
         }
-- 
2.43.0


From 9f754ef1e03801310d2c600bae145e852d9c366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 29/41] fix: a foreign file whose name looks like shard_x-y
 made opening the store panic

---
 src/router.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index b75adb0..408f9a0 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -127,8 +127,11 @@ impl ShardRouter {
             let Some((start, end)) = span.split_once("-") else {
                 continue;
             };
-            let start = u32::from_str_radix(start, 16).expect(filename);
-            let end = u32::from_str_radix(end, 16).expect(filename);
+            let (Ok(start), Ok(end)) = (u32::from_str_radix(start, 16), u32::from_str_radix(end, 16))
+            else {
+                // not one of ours
+                continue;
+            };
 
             ensure!(
                 start < end && end <= Self::END_OF_SHARDS,
-- 
2.43.0


From 7b172ef861f582b78ec2c50ee7fef486068c67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:18 +0000
Subject: [PATCH 30/41] fix: a crash while the initial shards were created or
 cleared made the store impossible to open

---
 src/router.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 408f9a0..b868fe7 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -50,6 +50,28 @@ fn test_consolidate_ranges() {
     );
 }
 
+// a crash while the initial shards are being created (or cleared) leaves only some of them behind. return the given ranges,
+// sorted by `start`, along with the ranges that are missing, such that all together they can be paired up by `treeify`
+fn fill_gaps(ranges: Vec<Range<u32>>, end: u32) -> Vec<Range<u32>> {
+    fn fill(filled: &mut Vec<Range<u32>>, mut start: u32, end: u32) {
+        while start < end {
+            let len = 1 << start.trailing_zeros().min((end - start).ilog2());
+            filled.push(start..start + len);
+            start += len;
+        }
+    }
+
+    let mut filled = vec![];
+    let mut covered = 0;
+    for range in ranges {
+        fill(&mut filled, covered, range.start);
+        covered = range.end;
+        filled.push(range);
+    }
+    fill(&mut filled, covered, end);
+    filled
+}
+
 enum ShardNode {
     Leaf(Shard),
     Vertex(Arc<ShardRouter>, Arc<ShardRouter>),
@@ -150,8 +172,12 @@ impl ShardRouter {
             )?;
         }
 
+        if shards_to_keep.is_empty() {
+            return Ok(vec![]);
+        }
+
         let mut shards = vec![];
-        for span in shards_to_keep {
+        for span in fill_gaps(shards_to_keep, Self::END_OF_SHARDS) {
             shards.push(Shard::open(
                 span,
                 false,
-- 
2.43.0


From 7ff5f4fe99d93b43a32f40ae447a23269d7dd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 31/41] fix: a crash while a shard file was created made the
 store impossible to open

---
 src/shard.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 5811fe0..438f326 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,5 +1,5 @@
 use anyhow::{bail, ensure};
-use bytemuck::{bytes_of_mut, Pod, Zeroable};
+use bytemuck::{bytes_of, bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
 use std::{
@@ -393,6 +393,12 @@ impl Shard {
                 }
             }
 
+            if file_size == size_of::<MetaHeader>() as u64 {
+                // we crashed while it was being created
+                file_size = 0;
+                cleared = true;
+            }
+
             if file_size != 0 && file_size < HEADER_SIZE {
                 if config.clear_on_unsupported_version {
                     file.set_len(0)?;
@@ -405,6 +411,15 @@ impl Shard {
         }
 
         if file_size == 0 {
+            // this comes before setting the file's length, so that a full-size file is never without it, even if we crash
+            file.write_all_at(
+                bytes_of(&MetaHeader {
+                    magic: SHARD_FILE_MAGIC,
+                    version: SHARD_FILE_VERSION,
+                }),
+                0,
+            )?;
+
             if config.truncate_up {
                 // when creating, set the file's length so that we won't need to extend it every time we write
                 // (saves on file metadata updates)
-- 
2.43.0


From 8d7b839f35084b0059bb1385b27ea616415afcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 32/41] fix: a truncated compaction leftover was taken for one
 that was never used

---
 src/shard.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 438f326..e797652 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -455,10 +455,10 @@ impl Shard {
                     let compacted_size = compacted_file.metadata()?.len();
                     let mut meta_header = MetaHeader::default();
                     let sz = compacted_file.read(bytes_of_mut(&mut meta_header))?;
-                    let never_used = compacted_size < HEADER_SIZE
-                        || (meta_header.magic == [0; 8] && meta_header.version == 0);
+                    let never_used = meta_header.magic == [0; 8] && meta_header.version == 0;
                     if !never_used
                         && (sz != size_of::<MetaHeader>()
+                            || compacted_size < HEADER_SIZE
                             || meta_header.magic != SHARD_FILE_MAGIC
                             || meta_header.version != SHARD_FILE_VERSION)
                     {
-- 
2.43.0


From 860f2d10f8be20312cdaf533503dc91245a98a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 33/41] fix: a failing clear left the store using files that
 were already removed

---
 src/router.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index b868fe7..e042904 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -331,13 +331,8 @@ impl ShardRouter {
         }
     }
 
-    pub(crate) fn clear(&self) -> Result<()> {
-        let mut guard = self.node.write();
-
-        // running compactions would rename their files after we've removed them. it doesn't matter if they fail
-        _ = Self::wait_for_compactions(&guard);
-
-        for res in std::fs::read_dir(&self.config.dir_path)? {
+    fn remove_shard_files(config: &Arc<InternalConfig>) -> Result<()> {
+        for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
             let Some(filename) = filename.to_str() else {
@@ -355,10 +350,25 @@ impl ShardRouter {
             }
         }
 
-        let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
+        Ok(())
+    }
+
+    pub(crate) fn clear(&self) -> Result<()> {
+        let mut guard = self.node.write();
+
+        // running compactions would rename their files after we've removed them. it doesn't matter if they fail
+        _ = Self::wait_for_compactions(&guard);
+
+        let res = Self::remove_shard_files(&self.config);
+
+        // even if removing failed, some files may be gone, so we must not go on using the old tree
+        let mut shards = Self::load(&self.config, &self.stats, &self.threadpool)?;
+        if shards.is_empty() {
+            shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
+        }
         *guard = Self::treeify(shards, &self.stats, &self.threadpool);
 
-        Ok(())
+        res
     }
 
     pub(crate) fn call_on_all_shards<T>(
-- 
2.43.0


From a9dc1ee381539c7aaac9d0fa861fb44583192b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 34/41] fix: a crash while a compaction was started could make
 the store impossible to open

---
 src/shard.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index e797652..4707c6f 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -187,6 +187,14 @@ impl MmapFile {
                     0
                 },
         )?;
+        // written at once, so that if we crash it's either there or not
+        file.write_all_at(
+            bytes_of(&MetaHeader {
+                magic: SHARD_FILE_MAGIC,
+                version: SHARD_FILE_VERSION,
+            }),
+            0,
+        )?;
         Self::new(file, config.mlock_headers)
     }
 
-- 
2.43.0


From 728354ec745f296a1e963e8d29c2c36f9e5ce69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 35/41] fix: a compaction leftover with a zeroed header was
 taken for one that was never used

---
 src/shard.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 4707c6f..4b2a6ff 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -179,6 +179,14 @@ impl MmapFile {
             .create(true)
             .truncate(true)
             .open(filename)?;
+        // this comes before setting the file's length, so that a full-size file is never without it, even if we crash
+        file.write_all_at(
+            bytes_of(&MetaHeader {
+                magic: SHARD_FILE_MAGIC,
+                version: SHARD_FILE_VERSION,
+            }),
+            0,
+        )?;
         file.set_len(
             HEADER_SIZE
                 + if config.truncate_up {
@@ -187,14 +195,6 @@ impl MmapFile {
                     0
                 },
         )?;
-        // written at once, so that if we crash it's either there or not
-        file.write_all_at(
-            bytes_of(&MetaHeader {
-                magic: SHARD_FILE_MAGIC,
-                version: SHARD_FILE_VERSION,
-            }),
-            0,
-        )?;
         Self::new(file, config.mlock_headers)
     }
 
@@ -463,13 +463,12 @@ impl Shard {
                     let compacted_size = compacted_file.metadata()?.len();
                     let mut meta_header = MetaHeader::default();
                     let sz = compacted_file.read(bytes_of_mut(&mut meta_header))?;
-                    let never_used = meta_header.magic == [0; 8] && meta_header.version == 0;
-                    if !never_used
-                        && (sz != size_of::<MetaHeader>()
-                            || compacted_size < HEADER_SIZE
-                            || meta_header.magic != SHARD_FILE_MAGIC
-                            || meta_header.version != SHARD_FILE_VERSION)
-                    {
+                    let valid = sz == size_of::<MetaHeader>()
+                        && meta_header.magic == SHARD_FILE_MAGIC
+                        && meta_header.version == SHARD_FILE_VERSION;
+                    let never_used = compacted_size == 0
+                        || (valid && compacted_size == size_of::<MetaHeader>() as u64);
+                    if !never_used && (!valid || compacted_size < HEADER_SIZE) {
                         bail!(
                             "{compacted_filename:?} unsupported magic={:?} version=0x{:016x} size={}",
                             meta_header.magic,
@@ -478,8 +477,12 @@ impl Shard {
                         );
                     }
 
-                    // note: if we crashed while it was being created, we'll compact from the beginning
-                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                    let target = if never_used {
+                        // we crashed while it was being created, compact from the beginning
+                        MmapFile::create(&compacted_filename, &config)?
+                    } else {
+                        MmapFile::new(compacted_file, config.mlock_headers)?
+                    };
                     Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
                     std::fs::rename(compacted_filename, filename)?;
                     mmap_file = target;
-- 
2.43.0


From d989d314ccdfaf9da5b1ee3f3c54feb95f9528b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 36/41] fix: extending a queue ran the caller's code while
 holding the queue's lock

---
 src/queues.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 9de270a..32dffa1 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -344,10 +344,11 @@ impl CandyStore {
         let queue_key = queue_key.as_ref();
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
 
-        // don't run the caller's iterator while holding the lock
+        // don't run the caller's iterator (or `as_ref`) while holding the lock
         let items = items.collect::<Vec<_>>();
+        let items = items.iter().map(|item| item.as_ref()).collect::<Vec<_>>();
         for item in items.iter() {
-            self.ensure_queue_item_sizes(queue_key, item.as_ref().len())?;
+            self.ensure_queue_item_sizes(queue_key, item.len())?;
         }
 
         let _guard = self.lock_list(queue_ph);
@@ -368,10 +369,7 @@ impl CandyStore {
 
         let first_idx = queue.tail_idx;
         for item in items {
-            self.set_raw(
-                &self.make_queue_item_key(queue_key, queue.tail_idx),
-                item.as_ref(),
-            )?;
+            self.set_raw(&self.make_queue_item_key(queue_key, queue.tail_idx), item)?;
             queue.tail_idx += 1;
             queue.num_items += 1;
         }
-- 
2.43.0


From 8d1af5f23775c8dbc0662583596213e4bddbab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:01 +0000
Subject: [PATCH 37/41] fix: statistics panicked after a failed compaction

---
 src/shard.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 4b2a6ff..259fd56 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -265,6 +265,12 @@ impl TPHandle {
     fn finished(&self) -> bool {
         !self.rx.is_empty()
     }
+    // waits for the task to finish, but leaves its result to whoever calls `wait`
+    fn wait_finished(&mut self) {
+        let (tx, rx) = crossbeam_channel::bounded(1);
+        _ = tx.send(self.wait());
+        self.rx = rx;
+    }
 }
 
 struct CompactionInfo {
@@ -1160,7 +1166,10 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        // a failure is reported by the next operation that requires the compaction, we only read the counters
+        if let Some(ref mut handle) = *self.compaction_handle.lock() {
+            handle.wait_finished();
+        }
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         Ok(ShardStats {
-- 
2.43.0


From 4acd74f9d3c5cffe3aeb58dbfb6d11c9ac24baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 38/41] fix: entries written beyond 4 GiB overwrote the size of
 their own slot

---
 src/shard.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 259fd56..0ce7859 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -247,6 +247,12 @@ impl MmapFile {
             .write_offset
             .fetch_add(buf.len() as u64, Ordering::SeqCst) as u64;
 
+        // offsets are kept in 32 bits (a shard whose compaction failed is not bound by max_shard_size)
+        ensure!(
+            write_offset <= u32::MAX as u64,
+            "shard file is full, cannot write at offset {write_offset}"
+        );
+
         // now writing can be non-atomic (pwrite)
         self.file.write_all_at(&buf, HEADER_SIZE + write_offset)?;
         stats.add_entry(entry_size);
-- 
2.43.0


From 325a3a8151430f61ba7fc282dbfa774f2d820b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 39/41] fix: statistics taken during operations could report
 more removals than inserts

---
 src/shard.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 0ce7859..1a0e8d3 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -977,7 +977,7 @@ impl Shard {
                 row.offsets_and_sizes[idx] = file.write_kv(&self.stats, key, val)?;
                 file.header()
                     .wasted_bytes
-                    .fetch_add((k.len() + existing_val.len()) as u64, Ordering::Relaxed);
+                    .fetch_add((k.len() + existing_val.len()) as u64, Ordering::Release);
                 self.stats.num_updates.fetch_add(1, Ordering::Relaxed);
                 #[cfg(feature = "flush_aggregation")]
                 {
@@ -1154,10 +1154,10 @@ impl Shard {
                 if key == k {
                     row.signatures[idx] = INVALID_SIG;
                     // we managed to remove this key
-                    file.header().num_removals.fetch_add(1, Ordering::Relaxed);
+                    file.header().num_removals.fetch_add(1, Ordering::Release);
                     file.header()
                         .wasted_bytes
-                        .fetch_add((k.len() + v.len()) as u64, Ordering::Relaxed);
+                        .fetch_add((k.len() + v.len()) as u64, Ordering::Release);
                     #[cfg(feature = "flush_aggregation")]
                     {
                         drop(_guard);
@@ -1178,11 +1178,15 @@ impl Shard {
         }
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
+        // what was removed or wasted was inserted or written before, so load these first: operations that run
+        // concurrently must not make us report more removals than inserts
+        let num_removals = hdr.num_removals.load(Ordering::Acquire) as usize;
+        let wasted_bytes = hdr.wasted_bytes.load(Ordering::Acquire) as usize;
         Ok(ShardStats {
             write_offset: hdr.write_offset.load(Ordering::Relaxed) as usize,
-            wasted_bytes: hdr.wasted_bytes.load(Ordering::Relaxed) as usize,
+            wasted_bytes,
             num_inserts: hdr.num_inserts.load(Ordering::Relaxed) as usize,
-            num_removals: hdr.num_removals.load(Ordering::Relaxed) as usize,
+            num_removals,
         })
     }
 }
-- 
2.43.0


From 23d714ebcb699038fac6ca38cb1960ca581aeb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 40/41] fix: an entry found after a crash was possibly never
 counted, and its removal made the count negative

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 1a0e8d3..c67c3d1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1111,6 +1111,8 @@ impl Shard {
                         if let Some(idx) = row.lookup(INVALID_SIG, &mut start) {
                             let new_off = file.write_kv(&self.stats, &full_key, val)?;
 
+                            // count it before it can be found (and removed), even if we crash right after that
+                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             // we don't want a reorder to happen here - first write the offset, then the signature
                             row.offsets_and_sizes[idx] = new_off;
                             std::sync::atomic::fence(Ordering::SeqCst);
@@ -1118,7 +1120,6 @@ impl Shard {
                             if had_collision {
                                 self.stats.num_collisions.fetch_add(1, Ordering::Relaxed);
                             }
-                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             #[cfg(feature = "flush_aggregation")]
                             {
                                 drop(_guard);
-- 
2.43.0


From e9e1bd202c974d6cab171ed12e01912f78c8b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 41/41] fix: after a failed compaction the statistics missed
 what had changed since

---
 src/shard.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index c67c3d1..0e5ca34 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1178,17 +1178,38 @@ impl Shard {
             handle.wait_finished();
         }
         let files_guard = self.files.read();
-        let hdr = files_guard.0.header();
+        // if the compaction did not finish, the new file holds the rows it got to
+        let hdr = files_guard.1.as_ref().unwrap_or(&files_guard.0).header();
         // what was removed or wasted was inserted or written before, so load these first: operations that run
         // concurrently must not make us report more removals than inserts
         let num_removals = hdr.num_removals.load(Ordering::Acquire) as usize;
         let wasted_bytes = hdr.wasted_bytes.load(Ordering::Acquire) as usize;
-        Ok(ShardStats {
+        let mut stats = ShardStats {
             write_offset: hdr.write_offset.load(Ordering::Relaxed) as usize,
             wasted_bytes,
             num_inserts: hdr.num_inserts.load(Ordering::Relaxed) as usize,
             num_removals,
-        })
+        };
+        if files_guard.1.is_some() {
+            // and the rest is still in the old one. count it the way the compaction would have
+            for row_idx in 0..NUM_ROWS {
+                let _row_guard = self.row_locks[row_idx].read();
+                if row_idx < hdr.compacted_up_to.load(Ordering::Acquire) {
+                    continue;
+                }
+                let row = files_guard.0.row(row_idx);
+                for (idx, &sig) in row.signatures.iter().enumerate() {
+                    if sig != INVALID_SIG {
+                        let offset_and_size = row.offsets_and_sizes[idx];
+                        let klen = (offset_and_size >> 48) as usize;
+                        let vlen = ((offset_and_size >> 32) & 0xffff) as usize;
+                        stats.num_inserts += 1;
+                        stats.write_offset += klen + vlen;
+                    }
+                }
+            }
+        }
+        Ok(stats)
     }
 }
 
-- 
2.43.0

