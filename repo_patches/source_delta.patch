From e10a2381ab5a78279e7f16e5d842f0250522da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:56 +0000
Subject: [PATCH 01/60] fix: refuse to serve deltas to a peer concurrent with
 an evicted one

DeltaBuffer::deltas_since refused only peers whose version was dominated by
the last evicted version. A peer whose version was concurrent with it was
served the retained deltas and silently missed the evicted ones.
---
 crates/logicaffeine_data/src/crdt/delta_buffer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/delta_buffer.rs b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
index b65def6..aedcf1b 100644
--- a/crates/logicaffeine_data/src/crdt/delta_buffer.rs
+++ b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
@@ -43,12 +43,16 @@ impl<D: Clone> DeltaBuffer<D> {
 
     /// Get all deltas since the given version.
     ///
-    /// Returns `None` if the version is older than or equal to our oldest evicted delta.
+    /// Returns `None` if the version is older than or equal to our oldest evicted delta,
+    /// or concurrent with it (the peer never saw what was evicted).
     /// Returns `Some(vec![])` if the peer is up-to-date.
     pub fn deltas_since(&self, version: &VClock) -> Option<Vec<D>> {
-        // If we've evicted deltas and the peer is at or behind what we evicted,
-        // we can't help them catch up (they need the evicted delta).
-        if self.oldest_version != VClock::new() && self.oldest_version.dominates(version) {
+        // If we've evicted deltas and the peer is not strictly past what we evicted
+        // (at it, behind it, or concurrent with it), we can't help them catch up
+        // (they need the evicted delta).
+        if self.oldest_version != VClock::new()
+            && (self.oldest_version.dominates(version) || !version.dominates(&self.oldest_version))
+        {
             return None;
         }
 
-- 
2.43.0


From ae63a6c8a053c019ab635047295be63ace1c9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:17 +0000
Subject: [PATCH 02/60] fix: stop a select with a repeated channel or a
 self-abort from corrupting the ready queue

---
 crates/logicaffeine_runtime/src/scheduler.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 817973e..8ec33aa 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -458,7 +458,10 @@ impl<'t> Scheduler<'t> {
             TaskStep::Await(target) => self.do_await(tid, target),
             TaskStep::Abort(target) => {
                 self.do_abort(target);
-                self.mark_ready(tid, RtPayload::Nothing);
+                // A task that aborts itself is finished; readying it would revive it.
+                if target != tid {
+                    self.mark_ready(tid, RtPayload::Nothing);
+                }
             }
             TaskStep::Close(ch) => {
                 self.do_close(ch);
@@ -660,7 +663,12 @@ impl<'t> Scheduler<'t> {
             for (i, a) in arms.iter().enumerate() {
                 match a {
                     SelectArm::Recv(ch) => {
-                        self.chans.get_mut(ch).unwrap().blocked_receivers.push_back(tid);
+                        // Register once per channel: a second entry for a repeated arm would
+                        // outlive the wake-up and swallow a later value.
+                        let waiting = &mut self.chans.get_mut(ch).unwrap().blocked_receivers;
+                        if !waiting.contains(&tid) {
+                            waiting.push_back(tid);
+                        }
                     }
                     SelectArm::Timeout(d) => {
                         self.timers.push(TimerEntry { fire_at: self.clock + *d, tid, arm: Some(i) });
-- 
2.43.0


From ac95570e11e7551da50d968ec778e456027f3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:17 +0000
Subject: [PATCH 03/60] fix: drop the slice of a task aborted earlier in the
 same work-stealing batch

---
 crates/logicaffeine_runtime/src/executor.rs  | 5 +++++
 crates/logicaffeine_runtime/src/scheduler.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index 90a5453..32fecf1 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -248,6 +248,11 @@ where
             for tid in &order {
                 let WorkerReport { tid: rt, output: slice_out, step } =
                     reports.remove(tid).expect("report for dispatched task");
+                // Aborted by an earlier slice of this batch: cooperatively it would
+                // never have been polled, so its slice leaves no trace.
+                if sched.ws_is_done(rt) {
+                    continue;
+                }
                 output.extend(slice_out);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 8ec33aa..861882e 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -404,6 +404,12 @@ impl<'t> Scheduler<'t> {
         })
     }
 
+    /// Has this task already finished (e.g. aborted earlier in the same batch)?
+    #[cfg(not(target_arch = "wasm32"))]
+    pub(crate) fn ws_is_done(&self, tid: TaskId) -> bool {
+        matches!(self.tasks[&tid].state, TaskState::Done)
+    }
+
     /// Every task finished?
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) fn ws_all_done(&self) -> bool {
-- 
2.43.0


From f80099ab3d8a903e108c062fe4512deeb0e6aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:44 +0000
Subject: [PATCH 04/60] fix: keep every virtual path inside the base directory

---
 crates/logicaffeine_system/src/fs/mod.rs   | 21 +++++++++++++++++++--
 crates/logicaffeine_system/src/fs/uring.rs |  3 +--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 04fcd46..02fce7f 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -179,6 +179,24 @@ pub trait Vfs {
     async fn list_dir(&self, path: &str) -> VfsResult<Vec<DirEntry>>;
 }
 
+/// Join a virtual path onto `base` so that no `..` or absolute part leaves `base`.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn contained(base: &std::path::Path, path: &str) -> PathBuf {
+    use std::path::Component;
+
+    let mut clean = PathBuf::new();
+    for part in std::path::Path::new(path).components() {
+        match part {
+            Component::Normal(name) => clean.push(name),
+            Component::ParentDir => {
+                clean.pop();
+            }
+            Component::RootDir | Component::CurDir | Component::Prefix(_) => {}
+        }
+    }
+    base.join(clean)
+}
+
 /// Native filesystem VFS using tokio::fs.
 #[cfg(not(target_arch = "wasm32"))]
 pub struct NativeVfs {
@@ -198,8 +216,7 @@ impl NativeVfs {
     /// Resolve a virtual path to an absolute filesystem path.
     fn resolve(&self, path: &str) -> PathBuf {
         // Security: Prevent path traversal attacks
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        contained(&self.base_dir, path)
     }
 }
 
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ff7f69f..ea41922 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -70,8 +70,7 @@ impl UringVfs {
     }
 
     fn resolve(&self, path: &str) -> PathBuf {
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        super::contained(&self.base_dir, path)
     }
 
     fn send(&self, cmd: UringCommand) -> VfsResult<()> {
-- 
2.43.0


From ca39a23eab9dd453c031a37ef3a38161f2c9856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:24 +0000
Subject: [PATCH 05/60] fix: give each atomic write its own flushed temp file

---
 crates/logicaffeine_system/src/fs/mod.rs      | 31 ++++++++++++++++---
 .../src/fs/uring_worker.rs                    |  2 +-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 02fce7f..2276ff8 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -197,6 +197,17 @@ pub(crate) fn contained(base: &std::path::Path, path: &str) -> PathBuf {
     base.join(clean)
 }
 
+/// A temp-file path next to `path` that no other file or concurrent write uses.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn temp_sibling(path: &std::path::Path) -> PathBuf {
+    use std::sync::atomic::{AtomicU64, Ordering};
+
+    static NEXT: AtomicU64 = AtomicU64::new(0);
+    let mut name = path.file_name().unwrap_or_default().to_os_string();
+    name.push(format!(".{}-{}.tmp", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
+    path.with_file_name(name)
+}
+
 /// Native filesystem VFS using tokio::fs.
 #[cfg(not(target_arch = "wasm32"))]
 pub struct NativeVfs {
@@ -241,12 +252,22 @@ impl Vfs for NativeVfs {
             tokio::fs::create_dir_all(parent).await?;
         }
 
-        // Atomic write: write to temp file, then rename
-        let temp_path = full_path.with_extension("tmp");
-        tokio::fs::write(&temp_path, contents).await?;
-        tokio::fs::rename(&temp_path, &full_path).await?;
+        // Atomic write: write to temp file, flush it, then rename
+        let temp_path = temp_sibling(&full_path);
+        let result = async {
+            use tokio::io::AsyncWriteExt;
 
-        Ok(())
+            let mut file = tokio::fs::File::create(&temp_path).await?;
+            file.write_all(contents).await?;
+            // A rename can reach the disk before the data it exposes.
+            file.sync_all().await?;
+            tokio::fs::rename(&temp_path, &full_path).await
+        }
+        .await;
+        if result.is_err() {
+            let _ = tokio::fs::remove_file(&temp_path).await;
+        }
+        result.map_err(VfsError::from)
     }
 
     async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
diff --git a/crates/logicaffeine_system/src/fs/uring_worker.rs b/crates/logicaffeine_system/src/fs/uring_worker.rs
index 0737b62..9dc2900 100644
--- a/crates/logicaffeine_system/src/fs/uring_worker.rs
+++ b/crates/logicaffeine_system/src/fs/uring_worker.rs
@@ -351,7 +351,7 @@ fn prepare_atomic_write(
         }
     }
 
-    let temp_path = dest_path.with_extension("tmp");
+    let temp_path = super::temp_sibling(&dest_path);
 
     let file = match OpenOptions::new()
         .write(true)
-- 
2.43.0


From 4c62d7537e756e9e403e001c80fefc54e95a3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:01 +0000
Subject: [PATCH 06/60] fix: keep acknowledged journal entries across
 compaction and torn tails

---
 crates/logicaffeine_system/src/distributed.rs | 49 ++++++++++++-------
 crates/logicaffeine_system/src/storage/mod.rs | 32 +++++++++---
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index b7b0d51..6a25b2e 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -88,13 +88,16 @@ impl JournalHeader {
 }
 
 /// Replay journal entries to reconstruct state.
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Also returns how many leading bytes held complete entries.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -125,10 +128,11 @@ where
         }
 
         pos = payload_end;
+        valid = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid))
 }
 
 // =============================================================================
@@ -194,7 +198,12 @@ where
         // 1. Replay journal to reconstruct state
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop the torn tail, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -233,10 +242,10 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // 2. Persist delta to Journal
+        // 2. Persist delta to Journal (before a compaction can replace the file)
         self.append_to_journal(&snapshot).await?;
+        drop(guard);
 
         // 3. Broadcast to Network (if synced)
         if let Some(topic) = &self.topic {
@@ -259,8 +268,8 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        let guard = self.inner.lock().await;
+        self.do_compact(&guard).await
     }
 
     /// Get the number of journal entries.
@@ -292,7 +301,8 @@ where
                 };
 
                 // Merge to RAM
-                inner.lock().await.merge(&delta);
+                let mut guard = inner.lock().await;
+                guard.merge(&delta);
 
                 // CRITICAL: Persist to Journal
                 // This ensures remote updates survive restarts
@@ -343,8 +353,8 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            let guard = self.inner.lock().await;
+            self.do_compact(&guard).await?;
         }
         Ok(())
     }
@@ -405,7 +415,12 @@ where
     ) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop the torn tail, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -426,10 +441,10 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // Persist delta to Journal
+        // Persist delta to Journal (before a compaction can replace the file)
         self.append_to_journal(&snapshot).await?;
+        drop(guard);
 
         // Auto-compact if needed
         self.maybe_compact().await?;
@@ -444,8 +459,8 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        let guard = self.inner.lock().await;
+        self.do_compact(&guard).await
     }
 
     /// Get the number of journal entries.
@@ -472,8 +487,8 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            let guard = self.inner.lock().await;
+            self.do_compact(&guard).await?;
         }
         Ok(())
     }
diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index b2405e0..fcad3a7 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -120,13 +120,16 @@ where
 }
 
 /// Helper function to replay journal entries (shared between platforms).
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Also returns how many leading bytes held complete entries.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -157,10 +160,11 @@ where
         }
 
         pos = payload_end;
+        valid = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid))
 }
 
 /// Native implementation with Send bounds.
@@ -177,7 +181,12 @@ where
         pub async fn mount(vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop the torn tail, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -221,9 +230,10 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is written: a mutation journaled in between would be lost.
+        let guard = self.inner.lock().await;
 
-        let op = JournalOp::<T>::Snapshot(state);
+        let op = JournalOp::<T>::Snapshot(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -264,7 +274,12 @@ where
     pub async fn mount(vfs: Arc<dyn Vfs>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop the torn tail, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -308,9 +323,10 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is written: a mutation journaled in between would be lost.
+        let guard = self.inner.lock().await;
 
-        let op = JournalOp::<T>::Snapshot(state);
+        let op = JournalOp::<T>::Snapshot(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
-- 
2.43.0


From f3afb9aaf6aab384bd6ab0cec02f0bcf839f3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:22 +0000
Subject: [PATCH 07/60] fix: rewrite the journal after a failed append instead
 of appending behind it

---
 crates/logicaffeine_system/src/distributed.rs | 22 +++++++++++++++++-
 crates/logicaffeine_system/src/storage/mod.rs | 23 +++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index 6a25b2e..3d53297 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -51,6 +51,8 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use async_lock::Mutex;
 use serde::{de::DeserializeOwned, Serialize};
+#[cfg(not(target_arch = "wasm32"))]
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 /// Compaction threshold: auto-compact when journal exceeds this many entries.
@@ -159,6 +161,8 @@ where
     topic: Option<String>,
     entry_count: Arc<Mutex<u64>>,
     local_peer_id: Option<String>,
+    /// Set when an append failed: the journal may end in a partial entry.
+    torn: Arc<AtomicBool>,
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -218,6 +222,7 @@ where
             topic: topic.clone(),
             entry_count: Arc::new(Mutex::new(entry_count)),
             local_peer_id,
+            torn: Arc::new(AtomicBool::new(false)),
         };
 
         // 3. Subscribe to network and spawn receive loop
@@ -286,6 +291,7 @@ where
         let path = self.journal_path.clone();
         let local_id = self.local_peer_id.clone();
         let entry_count = self.entry_count.clone();
+        let torn = self.torn.clone();
 
         tokio::spawn(async move {
             let mut rx = crate::network::gossip::subscribe(&topic).await;
@@ -320,7 +326,12 @@ where
                 entry.extend_from_slice(&header);
                 entry.extend_from_slice(&payload);
 
+                if torn.load(Ordering::SeqCst) {
+                    // The next local mutation or compaction rewrites the journal.
+                    continue;
+                }
                 if let Err(e) = vfs.append(&path, &entry).await {
+                    torn.store(true, Ordering::SeqCst);
                     eprintln!("[Distributed] Journal append failed: {:?}", e);
                 } else {
                     *entry_count.lock().await += 1;
@@ -334,6 +345,11 @@ where
 
     /// Append state as delta to journal.
     async fn append_to_journal(&self, state: &T) -> VfsResult<()> {
+        // Never append behind a partial entry; replace the journal instead.
+        if self.torn.load(Ordering::SeqCst) {
+            return self.do_compact(state).await;
+        }
+
         let op = JournalOp::Delta(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -343,7 +359,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            self.torn.store(true, Ordering::SeqCst);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(())
@@ -374,6 +393,7 @@ where
         let temp_path = format!("{}.tmp", self.journal_path);
         self.vfs.write(&temp_path, &entry).await?;
         self.vfs.rename(&temp_path, &self.journal_path).await?;
+        self.torn.store(false, Ordering::SeqCst);
 
         *self.entry_count.lock().await = 1;
         Ok(())
diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index fcad3a7..b200af3 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -103,6 +103,8 @@ where
     vfs: Arc<dyn Vfs + Send + Sync>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// Set when an append failed: the journal may end in a partial entry.
+    torn: std::sync::atomic::AtomicBool,
     _marker: PhantomData<T>,
 }
 
@@ -196,6 +198,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: std::sync::atomic::AtomicBool::new(false),
             _marker: PhantomData,
         })
     }
@@ -210,9 +213,17 @@ where
     where
         F: FnOnce(&mut T) -> R + Send,
     {
+        use std::sync::atomic::Ordering;
+
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        // Never append behind a partial entry; replace the journal instead.
+        if self.torn.load(Ordering::SeqCst) {
+            self.write_snapshot(&guard).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -222,7 +233,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            self.torn.store(true, Ordering::SeqCst);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -232,8 +246,12 @@ where
     pub async fn compact(&self) -> VfsResult<()> {
         // Held until the snapshot is written: a mutation journaled in between would be lost.
         let guard = self.inner.lock().await;
+        self.write_snapshot(&guard).await
+    }
 
-        let op = JournalOp::<T>::Snapshot(guard.clone());
+    /// Replace the journal with a single snapshot entry.
+    async fn write_snapshot(&self, state: &T) -> VfsResult<()> {
+        let op = JournalOp::<T>::Snapshot(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -243,6 +261,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn.store(false, std::sync::atomic::Ordering::SeqCst);
         *self.entry_count.lock().await = 1;
 
         Ok(())
-- 
2.43.0


From e29273c1d416ff6b875b634ff17b0ce1f22817d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 08/60] fix: keep a write to the base directory from leaving a
 temp file outside it

---
 crates/logicaffeine_system/src/fs/mod.rs          | 13 +++++++++++++
 crates/logicaffeine_system/src/fs/uring.rs        |  1 +
 crates/logicaffeine_system/src/fs/uring_worker.rs | 14 +++++++++++---
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 2276ff8..9989708 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -197,6 +197,18 @@ pub(crate) fn contained(base: &std::path::Path, path: &str) -> PathBuf {
     base.join(clean)
 }
 
+/// Refuse a write whose target is the base directory itself: its temp file would lie outside.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn ensure_below(base: &std::path::Path, full_path: &std::path::Path) -> VfsResult<()> {
+    if full_path == base {
+        return Err(VfsError::IoError(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "path names the base directory",
+        )));
+    }
+    Ok(())
+}
+
 /// A temp-file path next to `path` that no other file or concurrent write uses.
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn temp_sibling(path: &std::path::Path) -> PathBuf {
@@ -246,6 +258,7 @@ impl Vfs for NativeVfs {
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
         let full_path = self.resolve(path);
+        ensure_below(&self.base_dir, &full_path)?;
 
         // Ensure parent directory exists
         if let Some(parent) = full_path.parent() {
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ea41922..dbed92a 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -126,6 +126,7 @@ impl Vfs for UringVfs {
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
         let full_path = self.resolve(path);
+        super::ensure_below(&self.base_dir, &full_path)?;
         let (tx, rx) = oneshot::channel();
         self.send(UringCommand::Write {
             path: full_path,
diff --git a/crates/logicaffeine_system/src/fs/uring_worker.rs b/crates/logicaffeine_system/src/fs/uring_worker.rs
index 9dc2900..ed48017 100644
--- a/crates/logicaffeine_system/src/fs/uring_worker.rs
+++ b/crates/logicaffeine_system/src/fs/uring_worker.rs
@@ -533,7 +533,7 @@ fn process_completions(
                     let _ = tx.send(Err(cqe_error(result)));
                 } else {
                     let _ =
-                        tx.send(fs::rename(&temp_path, &dest_path).map_err(VfsError::from));
+                        tx.send(rename_into_place(&temp_path, &dest_path));
                 }
             }
 
@@ -618,6 +618,14 @@ fn fallback_read_and_close(fd: RawFd) -> VfsResult<Vec<u8>> {
     Ok(data)
 }
 
+/// Rename a finished temp file over its destination, removing it if that fails.
+fn rename_into_place(temp_path: &Path, dest_path: &Path) -> VfsResult<()> {
+    fs::rename(temp_path, dest_path).map_err(|e| {
+        let _ = fs::remove_file(temp_path);
+        VfsError::from(e)
+    })
+}
+
 fn fallback_atomic_write_and_close(
     fd: RawFd,
     data: &[u8],
@@ -638,7 +646,7 @@ fn fallback_atomic_write_and_close(
         return Err(VfsError::from(e));
     }
     drop(file); // close before rename
-    fs::rename(temp_path, dest_path).map_err(VfsError::from)
+    rename_into_place(temp_path, dest_path)
 }
 
 fn fallback_append_and_close(fd: RawFd, data: &[u8]) -> VfsResult<()> {
@@ -664,7 +672,7 @@ fn fallback_fsync_rename_and_close(
         return Err(VfsError::from(e));
     }
     drop(file); // close before rename
-    fs::rename(temp_path, dest_path).map_err(VfsError::from)
+    rename_into_place(temp_path, dest_path)
 }
 
 fn fallback_fsync_and_close(fd: RawFd) -> VfsResult<()> {
-- 
2.43.0


From e660493deceef597c8258048f2322b3428209abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:24 +0000
Subject: [PATCH 09/60] fix: constant division and remainder of integers
 promoted past the machine word

The bytecode compiler replaces division by a constant with a reciprocal
multiplication, and remainder by a power of two with a bit mask.  Both
raised an error when the dividend had grown into a big integer.
---
 .../logicaffeine_compile/src/semantics/arith.rs |  9 +++++++++
 crates/logicaffeine_compile/src/vm/compiler.rs  | 16 ++++++++++++++++
 crates/logicaffeine_compile/src/vm/machine.rs   | 17 ++++++++++++-----
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/semantics/arith.rs b/crates/logicaffeine_compile/src/semantics/arith.rs
index 3a445bd..2cebe08 100644
--- a/crates/logicaffeine_compile/src/semantics/arith.rs
+++ b/crates/logicaffeine_compile/src/semantics/arith.rs
@@ -387,6 +387,15 @@ pub fn binary_op(
             (RuntimeValue::Int(a), RuntimeValue::Int(b)) => Ok(RuntimeValue::Int(a & b)),
             (RuntimeValue::Bool(a), RuntimeValue::Bool(b)) => Ok(RuntimeValue::Bool(a & b)),
             (RuntimeValue::Set(_), RuntimeValue::Set(_)) => set_binop(&left, &right, SetOp::Intersection),
+            // A promoted integer keeps its low bits under a machine-word mask (`x % 2^k`
+            // is compiled to this form, and `x` may have outgrown the word).
+            (RuntimeValue::BigInt(a), RuntimeValue::Int(m)) | (RuntimeValue::Int(m), RuntimeValue::BigInt(a))
+                if *m >= 0 && !a.is_negative() =>
+            {
+                let word = BigInt::from_i64(2).pow(63);
+                let low = a.div_rem(&word).and_then(|(_, low)| low.to_i64()).unwrap_or(0);
+                Ok(RuntimeValue::Int(low & m))
+            }
             _ => Err("`&` requires integer, boolean, or Set operands".to_string()),
         },
         // `|` — bitwise OR on Int, union on Sets.
diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 6189d7a..03caff2 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -84,6 +84,22 @@ pub fn magic_eval(x: i64, magic: u64, more: u8, mul_back: i64) -> i64 {
     }
 }
 
+/// The divisor a `(magic, more)` reciprocal was generated for.
+pub fn magic_divisor(magic: u64, more: u8) -> i64 {
+    let shift = (more & 0x3F) as u32;
+    if more & 0x80 != 0 {
+        return 1i64 << shift;
+    }
+    // The reciprocal is `2^(64 + shift)` (one bit more with the add marker,
+    // whose magic has an implicit top bit) divided by the divisor, rounded up.
+    let (m, bits) = if more & 0x40 != 0 {
+        (magic as u128 | 1 << 64, 65 + shift)
+    } else {
+        (magic as u128, 64 + shift)
+    };
+    (1u128 << bits).div_ceil(m) as i64
+}
+
 /// Constant-pool dedup key. Floats are keyed by bit pattern so that distinct
 /// NaN payloads and -0.0/0.0 stay distinct pool entries.
 #[derive(Clone, PartialEq, Eq, Hash)]
diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 1e3bffc..0fa06ce 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -2003,11 +2003,18 @@ impl<'p> Vm<'p> {
                     // (`magic`/`more`). Emitted only for an Oracle-proven Int,
                     // non-negative `lhs`, so the result is bit-identical to
                     // `Op::Div`/`Op::Mod` by the constant `c`.
-                    let x = self.reg(lhs).as_int().ok_or_else(|| {
-                        "MagicDivU on a non-Int operand".to_string()
-                    })?;
-                    let v = crate::vm::compiler::magic_eval(x, magic, more, mul_back);
-                    self.set(dst, Value::int(v));
+                    let v = match self.reg(lhs).as_int() {
+                        Some(x) => {
+                            Value::int(crate::vm::compiler::magic_eval(x, magic, more, mul_back))
+                        }
+                        // Promoted past the machine word: divide exactly.
+                        None if mul_back == 0 => {
+                            let c = crate::vm::compiler::magic_divisor(magic, more);
+                            self.reg(lhs).div(&Value::int(c))?
+                        }
+                        None => self.reg(lhs).modulo(&Value::int(mul_back))?,
+                    };
+                    self.set(dst, v);
                     pc += 1;
                 }
                 Op::Lt { dst, lhs, rhs } => { self.binop(dst, lhs, rhs, Value::lt)?; pc += 1; }
-- 
2.43.0


From fca0411b0b0a1ab930be6caa625e4eb91c798ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:24 +0000
Subject: [PATCH 10/60] fix: keep element writes to a collection held in a
 struct field

The bytecode engine copied the collection on write and dropped the copy.
---
 .../logicaffeine_compile/src/vm/compiler.rs   | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 03caff2..2c06b56 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -1028,6 +1028,22 @@ impl<'i> Compiler<'i> {
         Some(magic_u64_gen(d as u64))
     }
 
+    /// A collection read from a struct field into `reg` may have been copied on
+    /// write there: store it back into the struct it came from.
+    fn write_back_field(&mut self, place: &Expr, reg: Reg) -> Result<(), String> {
+        let Expr::FieldAccess { object, field } = place else { return Ok(()) };
+        let name = self.interner.resolve(*field).to_string();
+        let fidx = self.add_const(Constant::Text(name))?;
+        let obj = self.compile_expr(object)?;
+        self.emit(Op::StructInsert { obj, field: fidx, value: reg });
+        match *object {
+            Expr::Identifier(sym) if !matches!(self.resolve_name(*sym), NameRef::Local(_)) => {
+                self.emit_write(*sym, obj)
+            }
+            place => self.write_back_field(place, obj),
+        }
+    }
+
     /// Emit `RegionBoundsGuard` for each hoist descriptor the Oracle recorded
     /// for the loop `stmt`, returning the set of arrays whose guard was
     /// emitted (only those are then eligible for speculative elision). All
@@ -1585,7 +1601,7 @@ impl<'i> Compiler<'i> {
                     let val = self.compile_expr(value)?;
                     let set = self.compile_expr(collection)?;
                     self.emit(Op::SetAdd { set, value: val });
-                    return Ok(());
+                    return self.write_back_field(collection, set);
                 }
                 let (sym, nr) = self.resolve_collection(collection)?;
                 match self.collection_reg(sym, &nr)? {
@@ -1610,7 +1626,7 @@ impl<'i> Compiler<'i> {
                     let val = self.compile_expr(value)?;
                     let coll = self.compile_expr(collection)?;
                     self.emit(Op::RemoveFrom { collection: coll, value: val });
-                    return Ok(());
+                    return self.write_back_field(collection, coll);
                 }
                 let (sym, nr) = self.resolve_collection(collection)?;
                 match self.collection_reg(sym, &nr)? {
@@ -1639,7 +1655,7 @@ impl<'i> Compiler<'i> {
                     let val = self.compile_expr(value)?;
                     let coll = self.compile_expr(collection)?;
                     self.emit(Op::SetIndex { collection: coll, index: idx, value: val });
-                    return Ok(());
+                    return self.write_back_field(collection, coll);
                 }
                 let proven = self.index_in_bounds(collection, index);
                 let (sym, nr) = self.resolve_collection(collection)?;
-- 
2.43.0


From 5594a3a1205fc73f708ad75a08e31873e6becb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:24 +0000
Subject: [PATCH 11/60] fix: dead-branch analysis forgot writes made in loops
 and other nested blocks

Ranges and lengths recorded before a loop, match or zone were used after it
as if its body had changed nothing, so live branches were removed.
---
 .../src/optimize/abstract_interp.rs           | 134 ++++++++----------
 1 file changed, 60 insertions(+), 74 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index f73d11a..5e4489a 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -1334,9 +1334,6 @@ fn interp_block<'a>(
             Stmt::Let { var, ty, value, mutable } => {
                 let range = eval_expr(value, state);
                 state.set_var(var, range);
-                if matches!(value, Expr::New { .. }) {
-                    state.set_length(var, Interval::exact(0));
-                }
                 result.push(Stmt::Let { var, ty, value, mutable });
             }
 
@@ -1346,14 +1343,6 @@ fn interp_block<'a>(
                 result.push(Stmt::Set { target, value });
             }
 
-            Stmt::Push { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    let cur_len = state.get_length(sym);
-                    state.set_length(*sym, cur_len.add(&Interval::exact(1)));
-                }
-                result.push(Stmt::Push { value, collection });
-            }
-
             Stmt::If { cond, then_block, else_block } => {
                 if let Some(val) = eval_condition(cond, state) {
                     let new_cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(val)));
@@ -1414,14 +1403,9 @@ fn interp_block<'a>(
             Stmt::While { cond, body, decreasing } => {
                 let mut loop_state = state.clone();
 
-                let loop_writes = collect_writes(body);
-                let bounded_var = extract_bounded_var(cond);
-
                 // Widen all loop-written variables (including the counter)
                 // to their full possible range before analyzing the body.
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
+                forget_writes(body, &mut loop_state);
 
                 // Now narrow the loop state based on the condition.
                 // For the bounded variable (counter), this gives it the range
@@ -1431,13 +1415,11 @@ fn interp_block<'a>(
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                // After loop: condition is false (loop exited)
-                narrow_state_negated(cond, state);
                 // Variables written in loop body get widened to top
-                for w in &loop_writes {
-                    if Some(*w) != bounded_var {
-                        state.set_var(*w, Interval::top());
-                    }
+                forget_writes(body, state);
+                // After loop: condition is false (unless a Break left it)
+                if !body.iter().any(has_break) {
+                    narrow_state_negated(cond, state);
                 }
 
                 result.push(Stmt::While { cond, body: new_body, decreasing });
@@ -1446,20 +1428,18 @@ fn interp_block<'a>(
             Stmt::Repeat { pattern, iterable, body } => {
                 let mut loop_state = state.clone();
 
-                if let Pattern::Identifier(var) = &pattern {
-                    loop_state.set_var(*var, Interval::top());
+                match &pattern {
+                    Pattern::Identifier(var) => loop_state.set_var(*var, Interval::top()),
+                    Pattern::Tuple(vars) => {
+                        vars.iter().for_each(|var| loop_state.set_var(*var, Interval::top()))
+                    }
                 }
 
-                let loop_writes = collect_writes(body);
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
+                forget_writes(body, &mut loop_state);
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                for w in &loop_writes {
-                    state.set_var(*w, Interval::top());
-                }
+                forget_writes(body, state);
 
                 result.push(Stmt::Repeat { pattern, iterable, body: new_body });
             }
@@ -1475,8 +1455,15 @@ fn interp_block<'a>(
             }
 
             Stmt::Inspect { target, arms, has_otherwise } => {
+                let before = state.clone();
+                for arm in &arms {
+                    forget_writes(arm.body, state);
+                }
                 let new_arms: Vec<_> = arms.into_iter().map(|arm| {
-                    let mut arm_state = state.clone();
+                    let mut arm_state = before.clone();
+                    for (_field, binding) in &arm.bindings {
+                        arm_state.set_var(*binding, Interval::top());
+                    }
                     let new_body = interp_nested_block(arm.body, &mut arm_state, expr_arena, stmt_arena);
                     crate::ast::stmt::MatchArm {
                         enum_name: arm.enum_name,
@@ -1491,22 +1478,26 @@ fn interp_block<'a>(
             Stmt::Zone { .. } => {
                 // Don't analyze inside zones — zone-scoped bindings must be
                 // preserved for escape analysis (same as propagation pass).
+                forget_writes(std::slice::from_ref(&stmt), state);
                 result.push(stmt);
             }
 
             Stmt::Concurrent { tasks } => {
                 let mut sub_state = state.clone();
                 let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
+                forget_writes(tasks, state);
                 result.push(Stmt::Concurrent { tasks: new_tasks });
             }
 
             Stmt::Parallel { tasks } => {
                 let mut sub_state = state.clone();
                 let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
+                forget_writes(tasks, state);
                 result.push(Stmt::Parallel { tasks: new_tasks });
             }
 
             other => {
+                forget_writes(std::slice::from_ref(&other), state);
                 result.push(other);
             }
         }
@@ -1523,9 +1514,35 @@ fn interp_nested_block<'a>(
 ) -> &'a [Stmt<'a>] {
     let stmts: Vec<Stmt<'a>> = block.iter().cloned().collect();
     let result = interp_block(stmts, state, expr_arena, stmt_arena);
+    // The block's own bindings end here; they may have shadowed outer ones.
+    for stmt in block {
+        if let Stmt::Let { var, .. } = stmt {
+            state.set_var(*var, Interval::top());
+        }
+    }
     stmt_arena.alloc_slice(result)
 }
 
+/// Forget the value of every variable `block` may write.
+fn forget_writes(block: &[Stmt], state: &mut AbstractState) {
+    for w in collect_mutations(block) {
+        state.set_var(w, Interval::top());
+    }
+}
+
+/// Can `stmt` break out of the loop it is directly in?
+fn has_break(stmt: &Stmt) -> bool {
+    match stmt {
+        Stmt::Break => true,
+        Stmt::If { then_block, else_block, .. } => {
+            then_block.iter().any(has_break) || else_block.map_or(false, |eb| eb.iter().any(has_break))
+        }
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| arm.body.iter().any(has_break)),
+        Stmt::Zone { body, .. } | Stmt::Splice { body } => body.iter().any(has_break),
+        _ => false,
+    }
+}
+
 fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     let mut all_keys: std::collections::HashSet<Symbol> = a.vars.keys().cloned().collect();
     all_keys.extend(b.vars.keys().cloned());
@@ -1558,47 +1575,6 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     }
 }
 
-fn collect_writes(block: &[Stmt]) -> Vec<Symbol> {
-    let mut writes = Vec::new();
-    for stmt in block {
-        collect_writes_stmt(stmt, &mut writes);
-    }
-    writes
-}
-
-fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) {
-    match stmt {
-        Stmt::Set { target, .. } => {
-            if !writes.contains(target) {
-                writes.push(*target);
-            }
-        }
-        Stmt::If { then_block, else_block, .. } => {
-            for s in *then_block { collect_writes_stmt(s, writes); }
-            if let Some(eb) = else_block {
-                for s in *eb { collect_writes_stmt(s, writes); }
-            }
-        }
-        Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-            for s in *body { collect_writes_stmt(s, writes); }
-        }
-        _ => {}
-    }
-}
-
-fn extract_bounded_var(cond: &Expr) -> Option<Symbol> {
-    match cond {
-        Expr::BinaryOp { op: BinaryOpKind::Lt | BinaryOpKind::LtEq | BinaryOpKind::Gt | BinaryOpKind::GtEq, left, .. } => {
-            if let Expr::Identifier(sym) = left {
-                Some(*sym)
-            } else {
-                None
-            }
-        }
-        _ => None,
-    }
-}
-
 // ============================================================================
 // The Oracle: product lattice + rich, fact-returning analysis (EXODIA Phase 1).
 //
@@ -5794,6 +5770,16 @@ fn collect_mut_stmt(s: &Stmt, out: &mut Vec<Symbol>) {
                 }
             }
         }
+        Stmt::Zone { body, .. } | Stmt::Splice { body } => {
+            for st in *body {
+                collect_mut_stmt(st, out);
+            }
+        }
+        Stmt::Concurrent { tasks } | Stmt::Parallel { tasks } => {
+            for st in *tasks {
+                collect_mut_stmt(st, out);
+            }
+        }
         _ => {}
     }
 }
-- 
2.43.0


From 247fd98f241aaabb503c23db76846e7fae04bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:24 +0000
Subject: [PATCH 12/60] fix: common subexpressions reused after their variable
 changed

A cached value was reused although the variable holding it had been
reassigned, or the loop body had changed an operand.
---
 .../logicaffeine_compile/src/optimize/gvn.rs  | 89 ++++++++++++++-----
 1 file changed, 65 insertions(+), 24 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/gvn.rs b/crates/logicaffeine_compile/src/optimize/gvn.rs
index 5eb13f5..4e58839 100644
--- a/crates/logicaffeine_compile/src/optimize/gvn.rs
+++ b/crates/logicaffeine_compile/src/optimize/gvn.rs
@@ -7,7 +7,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Pattern, Stmt};
 use crate::intern::{Interner, Symbol};
 
 /// Structural key for expressions, used for equality comparison in CSE.
@@ -118,8 +118,10 @@ impl CseState {
         self.cache.insert(key, sym);
     }
 
-    /// Invalidate all cache entries that reference the given symbol.
+    /// Invalidate all cache entries that reference the given symbol or whose
+    /// value it holds.
     fn invalidate(&mut self, sym: Symbol) {
+        self.cache.retain(|_, holder| *holder != sym);
         if let Some(keys) = self.deps.remove(&sym) {
             for key in keys {
                 self.cache.remove(&key);
@@ -301,9 +303,10 @@ fn cse_block<'a>(
                         state, &mut hoisted, interner, expr_arena, stmt_arena,
                     );
                     result.extend(hoisted);
+                    state.invalidate(var);
                     // Add the whole expression to cross-statement cache
                     if let Some(key) = compute_key(new_value) {
-                        if is_non_trivial(new_value) {
+                        if is_non_trivial(new_value) && !key_reads(&key, var) {
                             state.insert(key, var);
                         }
                     }
@@ -311,9 +314,10 @@ fn cse_block<'a>(
                 } else {
                     // Simple cross-statement check
                     let new_value = cse_expr_cross_stmt(value, state, expr_arena);
+                    state.invalidate(var);
                     // Add to cache
                     if let Some(key) = compute_key(value) {
-                        if is_non_trivial(value) {
+                        if is_non_trivial(value) && !key_reads(&key, var) {
                             state.insert(key, var);
                         }
                     }
@@ -325,38 +329,41 @@ fn cse_block<'a>(
                 result.push(Stmt::Set { target, value });
             }
             Stmt::Push { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
                 }
                 result.push(Stmt::Push { value, collection });
             }
             Stmt::Pop { collection, into } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
+                }
+                if let Some(var) = into {
+                    state.invalidate(var);
                 }
                 result.push(Stmt::Pop { collection, into });
             }
             Stmt::Add { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
                 }
                 result.push(Stmt::Add { value, collection });
             }
             Stmt::Remove { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
                 }
                 result.push(Stmt::Remove { value, collection });
             }
             Stmt::SetIndex { collection, index, value } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
                 }
                 result.push(Stmt::SetIndex { collection, index, value });
             }
             Stmt::SetField { object, field, value } => {
-                if let Expr::Identifier(sym) = object {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(object) {
+                    state.invalidate(sym);
                 }
                 result.push(Stmt::SetField { object, field, value });
             }
@@ -390,29 +397,33 @@ fn cse_block<'a>(
                 result.push(Stmt::If { cond, then_block: new_then_block, else_block: new_else });
             }
             Stmt::While { cond, body, decreasing } => {
+                // The body runs again after its own writes.
+                invalidate_block_writes(body, state);
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
-                // After While: conservatively clear for variables modified in loop
                 state.cache = saved_cache;
                 state.deps = saved_deps;
-                invalidate_block_writes(body, state);
 
                 result.push(Stmt::While { cond, body: new_body_block, decreasing });
             }
             Stmt::Repeat { pattern, iterable, body } => {
+                invalidate_block_writes(body, state);
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
+                match &pattern {
+                    Pattern::Identifier(sym) => state.invalidate(*sym),
+                    Pattern::Tuple(syms) => syms.iter().for_each(|sym| state.invalidate(*sym)),
+                }
 
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
                 state.cache = saved_cache;
                 state.deps = saved_deps;
-                invalidate_block_writes(body, state);
 
                 result.push(Stmt::Repeat { pattern, iterable, body: new_body_block });
             }
@@ -429,27 +440,49 @@ fn cse_block<'a>(
                 });
             }
             // All other statements pass through unchanged
-            other => result.push(other),
+            other => {
+                invalidate_block_writes(std::slice::from_ref(&other), state);
+                result.push(other)
+            }
         }
     }
 
     result
 }
 
+/// The variable a written place lives in.
+fn place_root(place: &Expr) -> Option<Symbol> {
+    match place {
+        Expr::Identifier(sym) => Some(*sym),
+        Expr::FieldAccess { object: inner, .. } | Expr::Index { collection: inner, .. } => place_root(inner),
+        _ => None,
+    }
+}
+
+/// Does the expression behind `key` read `sym`?
+fn key_reads(key: &ExprKey, sym: Symbol) -> bool {
+    let mut syms = HashSet::new();
+    collect_key_symbols(key, &mut syms);
+    syms.contains(&sym)
+}
+
 /// Scan a block for all write targets and invalidate them in the CSE state.
 fn invalidate_block_writes(stmts: &[Stmt], state: &mut CseState) {
     for stmt in stmts {
+        if let Stmt::Pop { into: Some(var), .. } | Stmt::ReadFrom { var, .. } = stmt {
+            state.invalidate(*var);
+        }
         match stmt {
             Stmt::Set { target, .. } => state.invalidate(*target),
             Stmt::Push { collection, .. } | Stmt::Pop { collection, .. }
             | Stmt::Add { collection, .. } | Stmt::Remove { collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
                 }
             }
             Stmt::SetIndex { collection, .. } | Stmt::SetField { object: collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
+                if let Some(sym) = place_root(collection) {
+                    state.invalidate(sym);
                 }
             }
             Stmt::If { then_block, else_block, .. } => {
@@ -464,6 +497,14 @@ fn invalidate_block_writes(stmts: &[Stmt], state: &mut CseState) {
             Stmt::Zone { body, .. } => {
                 invalidate_block_writes(body, state);
             }
+            Stmt::Inspect { arms, .. } => {
+                for arm in arms {
+                    invalidate_block_writes(arm.body, state);
+                }
+            }
+            Stmt::Concurrent { tasks } | Stmt::Parallel { tasks } => {
+                invalidate_block_writes(tasks, state);
+            }
             _ => {}
         }
     }
-- 
2.43.0


From bd38e2964129cf558a66cffaeec0be3ee349bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:24 +0000
Subject: [PATCH 13/60] fix: loop-invariant hoisting of pair-loop variables and
 failing expressions

Expressions over the variables of a pair loop were moved above the loop, and
a division or index that would never have run could fail there.
---
 .../logicaffeine_compile/src/optimize/licm.rs | 36 ++++++++++++++++---
 .../src/optimize/supercompile.rs              | 11 ++++--
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/licm.rs b/crates/logicaffeine_compile/src/optimize/licm.rs
index 43783eb..f247d9d 100644
--- a/crates/logicaffeine_compile/src/optimize/licm.rs
+++ b/crates/logicaffeine_compile/src/optimize/licm.rs
@@ -120,6 +120,31 @@ fn is_worth_hoisting(expr: &Expr) -> bool {
     )
 }
 
+/// Could evaluating `expr` raise an error? Hoisting it above a loop that runs
+/// zero times would then fail a program that does not.
+fn may_fail(expr: &Expr) -> bool {
+    match expr {
+        Expr::BinaryOp { op, left, right } => {
+            let divides = matches!(
+                op,
+                BinaryOpKind::Divide
+                    | BinaryOpKind::ExactDivide
+                    | BinaryOpKind::FloorDivide
+                    | BinaryOpKind::Modulo
+                    | BinaryOpKind::Pow
+            );
+            let nonzero = matches!(right, Expr::Literal(crate::ast::stmt::Literal::Number(n)) if *n > 0);
+            (divides && !nonzero) || may_fail(left) || may_fail(right)
+        }
+        Expr::Index { .. } => true,
+        Expr::Length { collection: inner }
+        | Expr::Not { operand: inner }
+        | Expr::FieldAccess { object: inner, .. } => may_fail(inner),
+        Expr::Contains { collection, value } => may_fail(collection) || may_fail(value),
+        _ => false,
+    }
+}
+
 /// True when evaluating `expr` has NO side effects and cannot panic on its own
 /// — so it is safe to evaluate it an EXTRA time (the guarded-hoist duplicates
 /// the loop condition). Identifiers, literals, and arithmetic/relational/logical
@@ -742,7 +767,7 @@ fn licm_stmts_with<'a>(
 
                 for s in body.iter().cloned() {
                     if let Stmt::Let { var: _, ty: _, value, mutable: false } = &s {
-                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) {
+                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) && !may_fail(value) {
                             hoisted.push(s);
                             continue;
                         }
@@ -783,15 +808,18 @@ fn licm_stmts_with<'a>(
                 let mut loop_writes = collect_loop_writes(body);
                 // The pattern variable varies each iteration — expressions
                 // reading it are NOT loop-invariant.
-                if let crate::ast::stmt::Pattern::Identifier(sym) = &pattern {
-                    loop_writes.insert(*sym);
+                match &pattern {
+                    crate::ast::stmt::Pattern::Identifier(sym) => {
+                        loop_writes.insert(*sym);
+                    }
+                    crate::ast::stmt::Pattern::Tuple(syms) => loop_writes.extend(syms.iter().copied()),
                 }
                 let mut hoisted = Vec::new();
                 let mut remaining = Vec::new();
 
                 for s in body.iter().cloned() {
                     if let Stmt::Let { var: _, ty: _, value, mutable: false } = &s {
-                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) {
+                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) && !may_fail(value) {
                             hoisted.push(s);
                             continue;
                         }
diff --git a/crates/logicaffeine_compile/src/optimize/supercompile.rs b/crates/logicaffeine_compile/src/optimize/supercompile.rs
index 5bd8322..c777604 100644
--- a/crates/logicaffeine_compile/src/optimize/supercompile.rs
+++ b/crates/logicaffeine_compile/src/optimize/supercompile.rs
@@ -672,8 +672,15 @@ fn drive_stmt<'a>(
         Stmt::Repeat { pattern, iterable, body } => {
             let driven_iter = drive_expr(iterable, env, expr_arena, depth);
             // Loop variable and modified vars are unknown
-            if let crate::ast::stmt::Pattern::Identifier(sym) = &pattern {
-                env.store.remove(sym);
+            match &pattern {
+                crate::ast::stmt::Pattern::Identifier(sym) => {
+                    env.store.remove(sym);
+                }
+                crate::ast::stmt::Pattern::Tuple(syms) => {
+                    for sym in syms {
+                        env.store.remove(sym);
+                    }
+                }
             }
             let modified = collect_modified_vars_block(body);
             for sym in &modified {
-- 
2.43.0


From 4ffc96ebd7c953b5661a6931c735378d8e751aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 14/60] fix: a conditional constant load is no longer moved
 ahead of its loop

The register allocator moved a constant load out of a loop even when the
load sat behind a branch and the same slot had been given another value
before the loop.  The slot then held the constant on paths that skip the
load.  Native loop regions use such a slot as their return flag, so a
function whose self tail call became a loop could return 0 instead of
carrying on.
---
 crates/logicaffeine_forge/src/regalloc.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_forge/src/regalloc.rs b/crates/logicaffeine_forge/src/regalloc.rs
index 306c910..5c2dec6 100644
--- a/crates/logicaffeine_forge/src/regalloc.rs
+++ b/crates/logicaffeine_forge/src/regalloc.rs
@@ -838,7 +838,12 @@ struct ConstHoist {
 ///     writer in the span is this `LoadConst`) — so the register holds the same
 ///     constant bits on every iteration. A slot reused for two different
 ///     constants (a scratch `LoadConst {dst,0}` then `LoadConst {dst,1}`) has two
-///     writers and is therefore NOT hoisted.
+///     writers and is therefore NOT hoisted;
+///  4. no value written to `dst` OUTSIDE the span can be overwritten by the hoist:
+///     either nothing outside the span writes `dst`, or every iteration runs the
+///     `LoadConst` (no transfer between `head` and `i`). A conditional
+///     `LoadConst` — an in-region Return raising its flag, cleared at the region
+///     head — must not be raised by the pre-header.
 ///
 /// Register-residency is NOT decided here (the analysis is purely structural over
 /// the op stream); the caller filters to `dst`s that are actually `Loc::Reg`/
@@ -882,7 +887,14 @@ fn loop_invariant_const_hoists(ops: &[MicroOp]) -> Vec<ConstHoist> {
             .iter()
             .enumerate()
             .all(|(off, o)| head + off == i || dest_of(o) != Some(dst));
-        if sole_writer {
+        // An earlier value of `dst` survives a path that skips this op, so the
+        // hoist must not overwrite it.
+        let written_outside = ops
+            .iter()
+            .enumerate()
+            .any(|(j, o)| !(head..=back).contains(&j) && dest_of(o) == Some(dst));
+        let always_runs = ops[head..i].iter().all(|o| op_target(o).is_none());
+        if sole_writer && (!written_outside || always_runs) {
             chosen.push(ConstHoist { op: i, head, dst, value });
         }
     }
-- 
2.43.0


From c053e6b54934339439ac40e86cac52c5a2f15929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 15/60] fix: constant branches are not flattened when they bind
 a name used later

Dropping the If around a taken branch moved the branch's own bindings into
the surrounding block, where they hid an outer variable of the same name.
---
 .../logicaffeine_compile/src/optimize/dce.rs  | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index 13ca808..b7fabee 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -267,14 +267,23 @@ pub fn eliminate_dead_code<'a>(
     // Then: dead branch elimination
     let mut result = Vec::with_capacity(stmts.len());
 
+    let mut rest: &[Stmt<'a>] = stmt_arena.alloc_slice(stmts.iter().cloned());
+
     for stmt in stmts {
+        rest = &rest[1..];
         match stmt {
             Stmt::If { cond, then_block, else_block } => {
                 if let Expr::Literal(Literal::Boolean(val)) = cond {
-                    if *val {
-                        result.extend(then_block.iter().cloned());
-                    } else if let Some(else_stmts) = else_block {
-                        result.extend(else_stmts.iter().cloned());
+                    let taken = if *val { Some(then_block) } else { else_block };
+                    match taken {
+                        // A binding of the branch hides an outer one only inside it.
+                        Some(block) if binds_name_used_in(block, rest) => {
+                            let cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(true)));
+                            let then_block = dce_block(block, stmt_arena, expr_arena);
+                            result.push(Stmt::If { cond, then_block, else_block: None });
+                        }
+                        Some(block) => result.extend(block.iter().cloned()),
+                        None => {}
                     }
                 } else {
                     let then_dce = dce_block(then_block, stmt_arena, expr_arena);
@@ -354,6 +363,20 @@ pub fn eliminate_dead_code<'a>(
     dead_variable_elimination(result)
 }
 
+/// Does `block` itself bind a name that `rest` goes on to read or write?
+fn binds_name_used_in(block: &[Stmt], rest: &[Stmt]) -> bool {
+    let bound: Vec<Symbol> = block
+        .iter()
+        .filter_map(|s| if let Stmt::Let { var, .. } = s { Some(*var) } else { None })
+        .collect();
+    if bound.is_empty() {
+        return false;
+    }
+    let mut used = super::licm::collect_loop_writes(rest);
+    rest.iter().for_each(|s| collect_stmt_reads(s, &mut used));
+    bound.iter().any(|sym| used.contains(sym))
+}
+
 fn dce_block<'a>(block: &'a [Stmt<'a>], stmt_arena: &'a Arena<Stmt<'a>>, expr_arena: &'a Arena<Expr<'a>>) -> &'a [Stmt<'a>] {
     let stmts: Vec<Stmt<'a>> = block.iter().cloned().collect();
     let dce_result = eliminate_dead_code(stmts, stmt_arena, expr_arena);
-- 
2.43.0


From 4dd388701a3096228570c8b50ebeeface4d29c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 16/60] fix: a new binding ends propagation of the constant it
 hides

A Let, loop variable or match binding that reuses an outer name no longer
has the outer constant substituted for it.
---
 .../src/optimize/propagate.rs                 | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/propagate.rs b/crates/logicaffeine_compile/src/optimize/propagate.rs
index b78adc9..962a0cd 100644
--- a/crates/logicaffeine_compile/src/optimize/propagate.rs
+++ b/crates/logicaffeine_compile/src/optimize/propagate.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{Expr, Literal, Stmt};
+use crate::ast::stmt::{Expr, Literal, Pattern, Stmt};
 use crate::intern::{Interner, Symbol};
 use super::fold;
 
@@ -70,6 +70,9 @@ fn propagate_stmt<'a>(
             let propagated = subst_and_fold(value, env, expr_arena, stmt_arena, interner);
             if !mutable && !mutated.contains(&var) && is_propagatable_literal(propagated) {
                 env.insert(var, propagated);
+            } else {
+                // A new binding hides an outer constant of the same name.
+                env.remove(&var);
             }
             Stmt::Let { var, ty, value: propagated, mutable }
         }
@@ -90,11 +93,18 @@ fn propagate_stmt<'a>(
             body: propagate_nested_block(body, env, mutated, expr_arena, stmt_arena, interner),
             decreasing,
         },
-        Stmt::Repeat { pattern, iterable, body } => Stmt::Repeat {
-            pattern,
-            iterable: subst_and_fold(iterable, env, expr_arena, stmt_arena, interner),
-            body: propagate_nested_block(body, env, mutated, expr_arena, stmt_arena, interner),
-        },
+        Stmt::Repeat { pattern, iterable, body } => {
+            let iterable = subst_and_fold(iterable, env, expr_arena, stmt_arena, interner);
+            let mut body_env = env.clone();
+            match &pattern {
+                Pattern::Identifier(sym) => {
+                    body_env.remove(sym);
+                }
+                Pattern::Tuple(syms) => body_env.retain(|sym, _| !syms.contains(sym)),
+            }
+            let body = propagate_nested_block(body, &body_env, mutated, expr_arena, stmt_arena, interner);
+            Stmt::Repeat { pattern, iterable, body }
+        }
         Stmt::FunctionDef { name, params, generics, body, return_type, is_native, native_path, is_exported, export_target, opt_flags } => {
             let func_mutated = collect_all_set_targets_from_block(body);
             let mut func_env: HashMap<Symbol, &'a Expr<'a>> = HashMap::new();
@@ -110,11 +120,13 @@ fn propagate_stmt<'a>(
         Stmt::Inspect { target, arms, has_otherwise } => Stmt::Inspect {
             target,
             arms: arms.into_iter().map(|arm| {
+                let mut arm_env = env.clone();
+                arm_env.retain(|sym, _| !arm.bindings.iter().any(|(_, b)| b == sym));
                 crate::ast::stmt::MatchArm {
                     enum_name: arm.enum_name,
                     variant: arm.variant,
                     bindings: arm.bindings,
-                    body: propagate_nested_block(arm.body, env, mutated, expr_arena, stmt_arena, interner),
+                    body: propagate_nested_block(arm.body, &arm_env, mutated, expr_arena, stmt_arena, interner),
                 }
             }).collect(),
             has_otherwise,
@@ -191,6 +203,7 @@ fn propagate_zone_block<'a>(
                 let propagated = subst_and_fold(value, &child_env, expr_arena, stmt_arena, interner);
                 // Intentionally do NOT insert into child_env — zone-scoped vars
                 // must stay as identifiers for escape analysis
+                child_env.remove(&var);
                 Stmt::Let { var, ty, value: propagated, mutable }
             }
             // For other statements, delegate to normal propagation
-- 
2.43.0


From 7fe56ababbd610d6ae8a4c9038a4c79084856c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 17/60] fix: adding zero to text is not simplified away

Text plus 0 appends the digit 0.  The identity x + 0 = x now excludes
operands that are recognisably text.
---
 crates/logicaffeine_compile/src/optimize/fold.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/fold.rs b/crates/logicaffeine_compile/src/optimize/fold.rs
index 2bafce5..a40b4bb 100644
--- a/crates/logicaffeine_compile/src/optimize/fold.rs
+++ b/crates/logicaffeine_compile/src/optimize/fold.rs
@@ -583,6 +583,16 @@ fn is_int_zero(e: &Expr) -> bool {
     matches!(e, Expr::Literal(Literal::Number(0)))
 }
 
+/// Recognisably a Text, by its shape alone.
+fn is_textual(e: &Expr) -> bool {
+    match e {
+        Expr::Literal(Literal::Text(_)) | Expr::InterpolatedString(_) => true,
+        Expr::BinaryOp { op: BinaryOpKind::Concat, .. } => true,
+        Expr::BinaryOp { op: BinaryOpKind::Add, left, right } => is_textual(left) || is_textual(right),
+        _ => false,
+    }
+}
+
 fn is_int_one(e: &Expr) -> bool {
     matches!(e, Expr::Literal(Literal::Number(1)))
 }
@@ -615,8 +625,9 @@ fn try_simplify_algebraic<'a>(
         // the sign bit, so the e-graph forbids it ("Float operands never rewrite", egraph/rules.rs).
         // (Subtraction below keeps `x - 0.0 → x`: that one preserves the sign, `-0.0 - 0.0 == -0.0`.)
         BinaryOpKind::Add => {
-            if is_int_zero(right) { return Some(left); }
-            if is_int_zero(left) { return Some(right); }
+            // On text `+` joins: `"n" + 0` is `"n0"`.
+            if is_int_zero(right) && !is_textual(left) { return Some(left); }
+            if is_int_zero(left) && !is_textual(right) { return Some(right); }
             None
         }
         // x - 0 = x
-- 
2.43.0


From 260e244babea5628bb1814560c8a83dbea686b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 18/60] fix: bindings of a block are forgotten when the block
 ends

The supercompiler kept the value of a block's own variable after the block,
so an outer variable of the same name could take that value.
---
 crates/logicaffeine_compile/src/optimize/supercompile.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/logicaffeine_compile/src/optimize/supercompile.rs b/crates/logicaffeine_compile/src/optimize/supercompile.rs
index c777604..ae24b19 100644
--- a/crates/logicaffeine_compile/src/optimize/supercompile.rs
+++ b/crates/logicaffeine_compile/src/optimize/supercompile.rs
@@ -763,6 +763,12 @@ fn drive_block<'a>(
             result.push(driven);
         }
     }
+    // The block's own bindings end here; they may have hidden outer ones.
+    for stmt in block {
+        if let Stmt::Let { var, .. } = stmt {
+            env.store.remove(var);
+        }
+    }
     stmt_arena.alloc_slice(result)
 }
 
-- 
2.43.0


From 76cfc48a9e360bae1c978f1bb9001b88d833a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:45 +0000
Subject: [PATCH 19/60] fix: range analysis of promoted integers and of sets
 and maps

A value past the 64-bit limits was treated as infinitely far away, so a
comparison made after dividing or adding it back into range was decided
wrongly.  Storing under a new map key, adding a present set member and
removing an absent one were assumed to change the length by a fixed amount,
which let a negative operand pass as non-negative.
---
 .../src/optimize/abstract_interp.rs           | 75 ++++++++++++++-----
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index 5e4489a..e7ed4fb 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -90,7 +90,7 @@ impl Bound {
     /// infinite, its sign flipping when `k < 0`.
     fn div_by(&self, k: i64) -> Bound {
         match self {
-            Bound::Finite(a) => Bound::Finite(a / k),
+            Bound::Finite(a) => a.checked_div(k).map_or(Bound::PosInf, Bound::Finite),
             Bound::NegInf => {
                 if k > 0 {
                     Bound::NegInf
@@ -263,18 +263,23 @@ impl Interval {
             && self.hi.cmp_bound(&other.hi) != std::cmp::Ordering::Greater
     }
 
-    fn add(&self, other: &Interval) -> Interval {
+    /// A range wholly beyond `i64` (the value promoted) keeps a finite near
+    /// bound: it is past the `i64` limit, but later arithmetic can bring it back.
+    fn past_limit(lo: Bound, hi: Bound) -> Interval {
         Interval {
-            lo: self.lo.add(&other.lo),
-            hi: self.hi.add(&other.hi),
+            lo: if matches!(lo, Bound::PosInf) { Bound::Finite(i64::MAX) } else { lo },
+            hi: if matches!(hi, Bound::NegInf) { Bound::Finite(i64::MIN) } else { hi },
         }
     }
 
+    fn add(&self, other: &Interval) -> Interval {
+        if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
+        Interval::past_limit(self.lo.add(&other.lo), self.hi.add(&other.hi))
+    }
+
     fn sub(&self, other: &Interval) -> Interval {
-        Interval {
-            lo: self.lo.sub(&other.hi),
-            hi: self.hi.sub(&other.lo),
-        }
+        if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
+        Interval::past_limit(self.lo.sub(&other.hi), self.hi.sub(&other.lo))
     }
 
     fn mul(&self, other: &Interval) -> Interval {
@@ -294,15 +299,17 @@ impl Interval {
             lo = Bound::min_bound(&lo, c);
             hi = Bound::max_bound(&hi, c);
         }
-        Interval { lo, hi }
+        if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
+        Interval::past_limit(lo, hi)
     }
 
     fn div(&self, other: &Interval) -> Interval {
         if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
             if b != 0 {
-                // `wrapping_div` matches the runtime (semantics/arith.rs) and
-                // avoids the `i64::MIN / -1` overflow panic of raw `/`.
-                return Interval::exact(a.wrapping_div(b));
+                // `i64::MIN / -1` promotes at runtime: the quotient is past `i64::MAX`.
+                return a
+                    .checked_div(b)
+                    .map_or(Interval::past_limit(Bound::PosInf, Bound::PosInf), Interval::exact);
             }
         }
         // Constant nonzero divisor, arbitrary dividend range. Truncating
@@ -4673,10 +4680,15 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
     match stmt {
         Stmt::Let { var, value, .. } => rich_bind(*var, value, st),
         Stmt::Set { target, value } => rich_bind(*target, value, st),
-        Stmt::Push { collection, value } | Stmt::Add { collection, value } => {
+        Stmt::Push { collection, value } => {
             rich_grow(collection, st);
             observe_written_elem(collection, value, st);
         }
+        // A set already holding the value does not grow.
+        Stmt::Add { collection, value } => {
+            rich_may_resize(collection, 0, 1, st);
+            observe_written_elem(collection, value, st);
+        }
         Stmt::Pop { collection, into } => {
             rich_shrink(collection, st);
             if let Some(v) = into {
@@ -4687,11 +4699,20 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
                 st.aliases.taint(*v);
             }
         }
-        Stmt::Remove { collection, .. } => rich_shrink(collection, st),
-        // A store leaves the length unchanged but adds an element value: join
+        // A set or map without the value or key does not shrink.
+        Stmt::Remove { collection, .. } => rich_may_resize(collection, -1, 0, st),
+        // A store leaves a list's length unchanged but adds an element value: join
         // it into the collection's element bound (the scatter `Set item k of
-        // arr to V` case).
-        Stmt::SetIndex { collection, value, .. } => observe_written_elem(collection, value, st),
+        // arr to V` case). Storing under a new key makes a map grow; only a list
+        // reaches a known size other than zero.
+        Stmt::SetIndex { collection, value, .. } => {
+            if let Expr::Identifier(sym) = collection {
+                if !matches!(st.intervals.get_length(sym).is_exact(), Some(n) if n > 0) {
+                    rich_may_resize(collection, 0, 1, st);
+                }
+            }
+            observe_written_elem(collection, value, st);
+        }
         Stmt::SetField { object, .. } => {
             if let Expr::Identifier(s) = *object {
                 for a in st.aliases.may_alias(*s) {
@@ -5131,7 +5152,25 @@ fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
     }
 }
 
-/// `Pop`/`Remove` — one element removed from a shared allocation.
+/// `Add`/`Remove`/keyed store — the size of a shared allocation may change by
+/// any amount in `[least, most]`.
+fn rich_may_resize(collection: &Expr, least: i64, most: i64, st: &mut RichAbstractState) {
+    if let Expr::Identifier(sym) = collection {
+        let by = Interval { lo: Bound::Finite(least), hi: Bound::Finite(most) };
+        let new_len = st.intervals.get_length(sym).add(&by).meet(&Interval::non_negative());
+        for a in st.aliases.may_alias(*sym) {
+            let shape = st.shapes.get(&a).cloned().unwrap_or(CollectionShape::Top);
+            let keeps = most > 0 && shape.is_definitely_nonempty();
+            st.shapes.insert(a, if keeps { CollectionShape::NonEmpty } else { CollectionShape::Top });
+            st.intervals.set_length(a, new_len.clone());
+            if least < 0 {
+                st.length_def.remove(&a);
+            }
+        }
+    }
+}
+
+/// `Pop` — one element removed from a shared allocation.
 fn rich_shrink(collection: &Expr, st: &mut RichAbstractState) {
     if let Expr::Identifier(sym) = collection {
         let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).popped();
-- 
2.43.0


From 697338eed117a3e15ceeda51e4d2bce41213425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:38 +0000
Subject: [PATCH 20/60] fix: masking a negative promoted integer keeps its low
 bits

Remainder tests by a power of two are compiled to a mask.  The mask raised
an error when the operand was a negative big integer.
---
 crates/logicaffeine_compile/src/semantics/arith.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/semantics/arith.rs b/crates/logicaffeine_compile/src/semantics/arith.rs
index 2cebe08..cb2cd66 100644
--- a/crates/logicaffeine_compile/src/semantics/arith.rs
+++ b/crates/logicaffeine_compile/src/semantics/arith.rs
@@ -390,7 +390,7 @@ pub fn binary_op(
             // A promoted integer keeps its low bits under a machine-word mask (`x % 2^k`
             // is compiled to this form, and `x` may have outgrown the word).
             (RuntimeValue::BigInt(a), RuntimeValue::Int(m)) | (RuntimeValue::Int(m), RuntimeValue::BigInt(a))
-                if *m >= 0 && !a.is_negative() =>
+                if *m >= 0 =>
             {
                 let word = BigInt::from_i64(2).pow(63);
                 let low = a.div_rem(&word).and_then(|(_, low)| low.to_i64()).unwrap_or(0);
-- 
2.43.0


From b28f2f72938e8919d79aa2185158d6b2f82d2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:43 +0000
Subject: [PATCH 21/60] fix: a specialised function is not defined twice

A later specialisation round could create a function whose name an earlier
round had already used, and the program then failed to load.
---
 crates/logicaffeine_compile/src/optimize/partial_eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/logicaffeine_compile/src/optimize/partial_eval.rs b/crates/logicaffeine_compile/src/optimize/partial_eval.rs
index 946bb5c..72df940 100644
--- a/crates/logicaffeine_compile/src/optimize/partial_eval.rs
+++ b/crates/logicaffeine_compile/src/optimize/partial_eval.rs
@@ -686,6 +686,10 @@ fn try_specialize_call<'a>(
     }
 
     let spec_name = make_spec_name(interner, func_info.name, &classifications);
+    // An earlier round (or the program itself) already defines this name.
+    if func_defs.contains_key(&spec_name) {
+        return None;
+    }
 
     let mut substitutions: HashMap<Symbol, &'a Expr<'a>> = HashMap::new();
     let mut new_params: Vec<(Symbol, &'a TypeExpr<'a>)> = Vec::new();
-- 
2.43.0


From 79f579cbf9296db0262f613e36af4cf10a743643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:43 +0000
Subject: [PATCH 22/60] fix: inlining does not move a call ahead of an earlier
 one

A small function used as an argument was expanded before calls that the
expression evaluates first, so their output appeared in the wrong order.
---
 .../src/optimize/inline_leaf.rs               | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/inline_leaf.rs b/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
index c90859d..ffdd1bd 100644
--- a/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
+++ b/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
@@ -234,6 +234,14 @@ fn rename_stmt<'a>(
     }
 }
 
+/// Numbering of call instances, and whether the statement being rewritten has
+/// already kept a call in place: a later candidate must not be lifted over it
+/// (the kept call may have effects, or fail first).
+struct Cursor {
+    next: usize,
+    kept_call: bool,
+}
+
 /// Expand one candidate call: emit the param bindings + renamed body, and
 /// return the fresh identifier holding the result.
 fn expand<'a>(
@@ -242,11 +250,11 @@ fn expand<'a>(
     ea: &'a Arena<Expr<'a>>,
     sa: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    counter: &mut usize,
+    counter: &mut Cursor,
     prelude: &mut Vec<Stmt<'a>>,
 ) -> &'a Expr<'a> {
-    let id = *counter;
-    *counter += 1;
+    let id = counter.next;
+    counter.next += 1;
 
     let mut locals = HashSet::new();
     collect_locals(cand.prefix, &mut locals);
@@ -290,7 +298,7 @@ fn rewrite_expr<'a>(
     ea: &'a Arena<Expr<'a>>,
     sa: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    counter: &mut usize,
+    counter: &mut Cursor,
     prelude: &mut Vec<Stmt<'a>>,
 ) -> &'a Expr<'a> {
     match e {
@@ -300,10 +308,11 @@ fn rewrite_expr<'a>(
                 .map(|a| rewrite_expr(a, cands, ea, sa, interner, counter, prelude))
                 .collect();
             if let Some(c) = cands.get(function) {
-                if c.params.len() == new_args.len() {
+                if c.params.len() == new_args.len() && !counter.kept_call {
                     return expand(c, &new_args, ea, sa, interner, counter, prelude);
                 }
             }
+            counter.kept_call = true;
             ea.alloc(Expr::Call { function: *function, args: new_args })
         }
         Expr::BinaryOp { op, left, right } => {
@@ -311,6 +320,7 @@ fn rewrite_expr<'a>(
             // The right operand of `and`/`or` is conditionally evaluated;
             // hoisting a call out of it would always run it. Leave it intact.
             let r = if matches!(op, BinaryOpKind::And | BinaryOpKind::Or) {
+                counter.kept_call |= !expr_pure(right);
                 *right
             } else {
                 rewrite_expr(right, cands, ea, sa, interner, counter, prelude)
@@ -330,7 +340,11 @@ fn rewrite_expr<'a>(
             let c = rewrite_expr(collection, cands, ea, sa, interner, counter, prelude);
             ea.alloc(Expr::Length { collection: c })
         }
-        _ => e,
+        Expr::Literal(_) | Expr::Identifier(_) => e,
+        _ => {
+            counter.kept_call = true;
+            e
+        }
     }
 }
 
@@ -341,12 +355,13 @@ fn rewrite_stmt<'a>(
     ea: &'a Arena<Expr<'a>>,
     sa: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    counter: &mut usize,
+    counter: &mut Cursor,
     out: &mut Vec<Stmt<'a>>,
 ) {
     // Each arm lifts candidate calls from the statement's own expressions into
     // a prelude evaluated immediately before it — sound because the calls are
     // pure and these positions are evaluated exactly once when control arrives.
+    counter.kept_call = false;
     match s {
         Stmt::Let { var, ty, value, mutable } => {
             let mut prelude = Vec::new();
@@ -457,7 +472,7 @@ fn rewrite_block<'a>(
     ea: &'a Arena<Expr<'a>>,
     sa: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    counter: &mut usize,
+    counter: &mut Cursor,
 ) -> Block<'a> {
     let mut out: Vec<Stmt<'a>> = Vec::with_capacity(block.len());
     for s in block {
@@ -500,7 +515,7 @@ pub fn inline_leaf_fns<'a>(
     if cands.is_empty() {
         return stmts;
     }
-    let mut counter: usize = 0;
+    let mut counter = Cursor { next: 0, kept_call: false };
     let mut out: Vec<Stmt<'a>> = Vec::with_capacity(stmts.len());
     for s in &stmts {
         rewrite_stmt(s, &cands, expr_arena, stmt_arena, interner, &mut counter, &mut out);
-- 
2.43.0


From 3c7bc7e22e941d358c3a9a00a109e3370b3e51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:57 +0000
Subject: [PATCH 23/60] fix: reject control characters in UUID text

The vector decoder folded every byte before checking for digits, so bytes
0x10 to 0x19 were accepted as the digits 0 to 9.
---
 crates/logicaffeine_base/src/uuid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_base/src/uuid.rs b/crates/logicaffeine_base/src/uuid.rs
index 12383f8..1a6bd51 100644
--- a/crates/logicaffeine_base/src/uuid.rs
+++ b/crates/logicaffeine_base/src/uuid.rs
@@ -491,10 +491,11 @@ mod x86_hex {
     unsafe fn hex_ok(chars: core::arch::x86_64::__m128i) -> core::arch::x86_64::__m128i {
         use core::arch::x86_64::*;
         let cf = _mm_or_si128(chars, _mm_set1_epi8(0x20)); // fold 'A'-'F' → 'a'-'f'
-        let clamp = |lo: i8, hi: i8| {
-            _mm_cmpeq_epi8(_mm_min_epu8(_mm_max_epu8(cf, _mm_set1_epi8(lo)), _mm_set1_epi8(hi)), cf)
+        let clamp = |v: __m128i, lo: i8, hi: i8| {
+            _mm_cmpeq_epi8(_mm_min_epu8(_mm_max_epu8(v, _mm_set1_epi8(lo)), _mm_set1_epi8(hi)), v)
         };
-        _mm_or_si128(clamp(0x30, 0x39), clamp(0x61, 0x66))
+        // Only the letters fold: a control byte 0x10–0x19 would otherwise pass as a digit.
+        _mm_or_si128(clamp(chars, 0x30, 0x39), clamp(cf, 0x61, 0x66))
     }
 
     /// The branch-free decode core shared by the single and bulk parsers. Two `pshufb` gathers strip the
-- 
2.43.0


From 7ed360877d77f3afffeda2ae320bac58bd5b8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:57 +0000
Subject: [PATCH 24/60] fix: reject timestamps outside the nanosecond range

Parsing a timestamp before 1677 or after 2262 overflowed the 64-bit
nanosecond count instead of reporting that it cannot be read.
---
 crates/logicaffeine_base/src/temporal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index 1d379b4..b25bbc2 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -850,8 +850,11 @@ pub fn parse_rfc3339(s: &str) -> Option<i64> {
     if pos != b.len() {
         return None; // trailing garbage
     }
-    let civil = CivilDateTime { year, month, day, hour, minute, second, nanosecond };
-    Some(unix_nanos_from_civil(civil) - offset_seconds * NANOS_PER_SECOND)
+    // A four-digit year reaches past what 64 bits of nanoseconds hold (about 1677–2262).
+    let days = days_from_civil(year, month, day) as i128;
+    let secs = hour as i64 * 3600 + minute as i64 * 60 + second as i64 - offset_seconds;
+    let nanos = days * NANOS_PER_DAY as i128 + secs as i128 * NANOS_PER_SECOND as i128 + nanosecond as i128;
+    i64::try_from(nanos).ok()
 }
 
 /// True if `year` is a leap year in the proleptic **Gregorian** calendar (every 4th year, except
-- 
2.43.0


From 7e54d9c2af0654f2b96a94cdf2c78530628f1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:16:45 +0000
Subject: [PATCH 25/60] fix: refuse a duration whose fraction is too long to
 hold

A fraction of more than about 24 digits overflowed while it was scaled to
nanoseconds, which panicked or gave a wrong duration.
---
 crates/logicaffeine_base/src/temporal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index b25bbc2..d1a1199 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -715,9 +715,9 @@ pub fn parse_duration(s: &str) -> Option<i64> {
             let frac_val: i128 = frac_str.parse().ok()?;
             let mut denom: i128 = 1;
             for _ in 0..frac_str.len() {
-                denom *= 10;
+                denom = denom.checked_mul(10)?;
             }
-            total = total.checked_add(frac_val * unit_nanos / denom)?;
+            total = total.checked_add(frac_val.checked_mul(unit_nanos)? / denom)?;
         }
         saw_any = true;
     }
-- 
2.43.0


From ea5f60ba295efbd84efaa87c26fa92b2c171c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:44 +0000
Subject: [PATCH 26/60] fix: ignore tautological clauses when resolving on a
 variable

Variable elimination resolved a clause holding both a variable and its
negation with itself and dropped both literals. A satisfiable formula with
such a clause could then be reported as unsatisfiable.
---
 crates/logicaffeine_proof/src/inprocess.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_proof/src/inprocess.rs b/crates/logicaffeine_proof/src/inprocess.rs
index 1e4b9c7..c9f05ee 100644
--- a/crates/logicaffeine_proof/src/inprocess.rs
+++ b/crates/logicaffeine_proof/src/inprocess.rs
@@ -14,6 +14,9 @@ use crate::proof::ProofStep;
 /// clauses minus both `x` literals. `None` if the resolvent is a tautology (contains some literal
 /// and its negation), which contributes nothing.
 fn resolve(a: &[Lit], b: &[Lit], x: Var) -> Option<Vec<Lit>> {
+    if a.contains(&Lit::neg(x)) || b.contains(&Lit::pos(x)) {
+        return None; // a parent holding both `x` and `¬x` is a tautology and constrains nothing
+    }
     let mut r: Vec<Lit> = a.iter().copied().filter(|l| l.var() != x).collect();
     for &l in b {
         if l.var() != x && !r.contains(&l) {
-- 
2.43.0


From cd82471adc0d464808ec4c665a669ba6765e8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:02 +0000
Subject: [PATCH 27/60] fix: indexed proof checker accepts symmetries over
 fewer variables

A symmetry step may range over the original variables only while the proof
also introduces extra ones. The indexed checker read past the end of such a
permutation and panicked where the plain checker accepts the proof.
---
 crates/logicaffeine_proof/src/pr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_proof/src/pr.rs b/crates/logicaffeine_proof/src/pr.rs
index dab4f89..1d135b3 100644
--- a/crates/logicaffeine_proof/src/pr.rs
+++ b/crates/logicaffeine_proof/src/pr.rs
@@ -111,7 +111,12 @@ pub fn is_pr_indexed(
 /// `O(|db|)`. Falls back to the stateless checker if the proof deletes clauses (the index is
 /// append-only, and certified symmetry refutations do not delete).
 pub fn check_pr_refutation_fast(num_vars: usize, original: &[Vec<Lit>], steps: &[ProofStep]) -> bool {
-    if steps.iter().any(|s| matches!(s, ProofStep::Delete(_))) {
+    let stateless = |s: &ProofStep| match s {
+        ProofStep::Delete(_) => true,
+        ProofStep::Pr { witness: Witness::Substitution(g), .. } => g.num_vars() < num_vars,
+        _ => false,
+    };
+    if steps.iter().any(stateless) {
         return check_pr_refutation(num_vars, original, steps);
     }
     let mut db: Vec<Vec<Lit>> = original.to_vec();
-- 
2.43.0


From ddd0cd3a0f44a122066fc780f97b3202b6f90c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:02 +0000
Subject: [PATCH 28/60] fix: repeated variables cancel in the parity engine

A parity equation naming a variable twice was read as naming it once, so
the search could reject satisfiable systems or return a wrong model.
---
 crates/logicaffeine_proof/src/xor_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_proof/src/xor_engine.rs b/crates/logicaffeine_proof/src/xor_engine.rs
index 0bb011a..b426d03 100644
--- a/crates/logicaffeine_proof/src/xor_engine.rs
+++ b/crates/logicaffeine_proof/src/xor_engine.rs
@@ -131,7 +131,7 @@ impl XorEngine {
                     ok = false;
                     break;
                 }
-                bit_set(&mut vars, v);
+                vars[v / 64] ^= 1u64 << (v % 64);
             }
             if !ok {
                 continue;
-- 
2.43.0


From 14f58df17aed624ace83d0f36e8ad9361a2d4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:02 +0000
Subject: [PATCH 29/60] fix: infeasibility witness names slots of capacity zero

Slots without room were left out of the witness, so the witness checker
rejected it.
---
 crates/logicaffeine_proof/src/matching.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/logicaffeine_proof/src/matching.rs b/crates/logicaffeine_proof/src/matching.rs
index 73038ed..42a90fe 100644
--- a/crates/logicaffeine_proof/src/matching.rs
+++ b/crates/logicaffeine_proof/src/matching.rs
@@ -259,6 +259,8 @@ pub fn assign_or_hall_capacitated(adj: &[Vec<usize>], capacities: &[usize]) -> C
             // Reachable copies are exactly all copies of the reachable original slots, so their
             // total capacity equals |w.slots| < |w.items| — the capacitated Hall deficiency.
             let mut slots: Vec<usize> = w.slots.into_iter().map(copy_to_slot).collect();
+            // A slot of capacity 0 has no copies, yet the items may still name it.
+            slots.extend(w.items.iter().flat_map(|&i| adj[i].iter().copied()));
             slots.sort_unstable();
             slots.dedup();
             CapMatchOutcome::Infeasible(CapHallWitness { items: w.items, slots })
-- 
2.43.0


From c57946f3e92f59fd8e9b0cc1b44ff5e628d92405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:13 +0000
Subject: [PATCH 30/60] fix: saturation keeps a constraint with negative bound
 satisfiable

Coefficients were clamped to the bound even when the bound was negative,
which turned a constraint that always holds into a contradiction. The
default solver then reported satisfiable formulas as unsatisfiable.
---
 crates/logicaffeine_proof/src/pseudo_boolean.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_proof/src/pseudo_boolean.rs b/crates/logicaffeine_proof/src/pseudo_boolean.rs
index f3d8544..65225ad 100644
--- a/crates/logicaffeine_proof/src/pseudo_boolean.rs
+++ b/crates/logicaffeine_proof/src/pseudo_boolean.rs
@@ -123,8 +123,9 @@ impl PbConstraint {
     /// and it keeps coefficients from blowing up across many additions.
     pub fn saturate(&self) -> PbConstraint {
         let d = self.degree;
+        // At a negative degree the constraint always holds; a coefficient never drops below zero.
         PbConstraint {
-            terms: self.terms.iter().map(|(&v, &(c, s))| (v, (c.min(d), s))).collect(),
+            terms: self.terms.iter().map(|(&v, &(c, s))| (v, (c.min(d.max(0)), s))).collect(),
             degree: d,
         }
     }
-- 
2.43.0


From 280829b72c43dd4b9881339760ecdcea7cf611ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:36 +0000
Subject: [PATCH 31/60] fix: conflict report names premises used through their
 conjuncts

---
 crates/logicaffeine_proof/src/verify.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_proof/src/verify.rs b/crates/logicaffeine_proof/src/verify.rs
index e218012..007dee5 100644
--- a/crates/logicaffeine_proof/src/verify.rs
+++ b/crates/logicaffeine_proof/src/verify.rs
@@ -655,8 +655,20 @@ pub fn detect_conflict(premises: &[ProofExpr]) -> ConflictReport {
     if let Some(derivation) = &outcome.derivation {
         let mut leaves: Vec<&ProofExpr> = Vec::new();
         collect_premise_leaves(derivation, &mut leaves);
+        let engine = BackwardChainer::new();
         for (i, premise) in premises.iter().enumerate() {
-            if leaves.iter().any(|leaf| *leaf == premise) && !used.contains(&i) {
+            // The search never sees the premise itself: it sees its abstracted form with
+            // biconditionals expanded, whole or split at top-level conjunctions.
+            let mut forms = vec![premise.clone(), expand_iff(&engine.abstract_all_events(premise))];
+            let mut at = 1;
+            while at < forms.len() {
+                if let ProofExpr::And(l, r) = forms[at].clone() {
+                    forms.push(*l);
+                    forms.push(*r);
+                }
+                at += 1;
+            }
+            if leaves.iter().any(|leaf| forms.contains(leaf)) && !used.contains(&i) {
                 used.push(i);
             }
         }
-- 
2.43.0


From d7ee57bdd2ab35ec8e1c07cc31ef103af4ccfacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:23 +0000
Subject: [PATCH 32/60] fix: do not try terms with bound variables as
 existential witnesses

---
 crates/logicaffeine_proof/src/engine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/engine.rs b/crates/logicaffeine_proof/src/engine.rs
index 3d8036b..d29f32f 100644
--- a/crates/logicaffeine_proof/src/engine.rs
+++ b/crates/logicaffeine_proof/src/engine.rs
@@ -6808,8 +6808,9 @@ impl BackwardChainer {
                 }
             }
             ProofTerm::Function(_, args) => {
-                // The function application itself could be a witness
-                if !constants.contains(term) {
+                // The function application itself could be a witness, unless it holds a
+                // variable of the quantifier it was found under
+                if is_ground_term(term) && !constants.contains(term) {
                     constants.push(term.clone());
                 }
                 for arg in args {
-- 
2.43.0


From cc55d3293b82027fa4d7d6f7a8b423e959e98b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:13:10 +0000
Subject: [PATCH 33/60] fix: congruence closer skips terms under a binder of
 the lemma's own variable

---
 crates/logicaffeine_proof/src/crush.rs | 5 ++++-
 crates/logicaffeine_proof/src/unify.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/crush.rs b/crates/logicaffeine_proof/src/crush.rs
index 80bfbbf..c37c7cf 100644
--- a/crates/logicaffeine_proof/src/crush.rs
+++ b/crates/logicaffeine_proof/src/crush.rs
@@ -18,7 +18,7 @@
 use std::collections::HashSet;
 
 use crate::engine::cert_congruence_path;
-use crate::unify::{apply_subst_to_expr, match_term_pattern, Substitution};
+use crate::unify::{apply_subst_to_expr, match_term_pattern, occurs, Substitution};
 use crate::{DerivationTree, InferenceRule, ProofExpr, ProofTerm};
 
 /// Prove `goal` from `premises` by E-matching the `∀`-equality lemmas among
@@ -53,6 +53,9 @@ pub(crate) fn crush_prove(premises: &[ProofExpr], goal: &ProofExpr) -> Option<De
             if !params.iter().all(|p| subst.contains_key(p)) {
                 continue; // trigger did not pin every variable
             }
+            if subst.values().any(|t| params.iter().any(|p| occurs(p, t))) {
+                continue; // the "ground" term is itself under a binder of the same name
+            }
             let key = format!("{g}");
             if !fired.insert(key) {
                 continue;
diff --git a/crates/logicaffeine_proof/src/unify.rs b/crates/logicaffeine_proof/src/unify.rs
index bbd3df6..fd12b96 100644
--- a/crates/logicaffeine_proof/src/unify.rs
+++ b/crates/logicaffeine_proof/src/unify.rs
@@ -1119,7 +1119,7 @@ fn unify_terms_with_subst(
 
 /// Check if a variable occurs in a term (for occurs check).
 /// Prevents infinite types like x = f(x).
-fn occurs(var: &str, term: &ProofTerm) -> bool {
+pub(crate) fn occurs(var: &str, term: &ProofTerm) -> bool {
     match term {
         ProofTerm::Variable(v) => v == var,
         ProofTerm::BoundVarRef(v) => v == var, // BoundVarRef participates in occurs check
-- 
2.43.0


From 59a8ffb6d1ffe1cfe149c6d208b53a41650d3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:11 +0000
Subject: [PATCH 34/60] fix: congruence closer follows inner binders renamed by
 earlier witnesses

---
 crates/logicaffeine_proof/src/crush.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/crush.rs b/crates/logicaffeine_proof/src/crush.rs
index c37c7cf..2febb71 100644
--- a/crates/logicaffeine_proof/src/crush.rs
+++ b/crates/logicaffeine_proof/src/crush.rs
@@ -161,9 +161,9 @@ fn instantiate_eq_lemma(
     for param in params {
         let witness = subst.get(param)?.clone();
         let ProofExpr::ForAll { variable, body } = expr else { return None };
-        debug_assert_eq!(&variable, param);
+        // An earlier witness can force an inner binder to be renamed.
         let mut single = Substitution::new();
-        single.insert(param.clone(), witness.clone());
+        single.insert(variable, witness.clone());
         let inst = apply_subst_to_expr(&body, &single);
         tree = DerivationTree::new(
             inst.clone(),
-- 
2.43.0


From 9d7c8d51e034f9128bd4091854cab061c49d5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 35/60] fix: compiled list indices keep every operator of the
 index expression

---
 .../logicaffeine_compile/src/codegen/expr.rs  |  2 +-
 .../src/codegen/peephole.rs                   | 22 ++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/expr.rs b/crates/logicaffeine_compile/src/codegen/expr.rs
index e5f822b..96f1d72 100644
--- a/crates/logicaffeine_compile/src/codegen/expr.rs
+++ b/crates/logicaffeine_compile/src/codegen/expr.rs
@@ -1114,7 +1114,7 @@ pub(super) fn is_money_expr(
     }
 }
 
-fn codegen_expr_ctx(expr: &Expr, ecx: &ExprCtx) -> String {
+pub(crate) fn codegen_expr_ctx(expr: &Expr, ecx: &ExprCtx) -> String {
     // Bind the fields the match arms read directly; `registry` rides along in
     // `ecx` and reaches recursion via the `recurse!` macro.
     let ExprCtx {
diff --git a/crates/logicaffeine_compile/src/codegen/peephole.rs b/crates/logicaffeine_compile/src/codegen/peephole.rs
index 8a72f34..0750b04 100644
--- a/crates/logicaffeine_compile/src/codegen/peephole.rs
+++ b/crates/logicaffeine_compile/src/codegen/peephole.rs
@@ -6,7 +6,8 @@ use crate::analysis::types::RustNames;
 use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt, TypeExpr};
 use crate::intern::{Interner, Symbol};
 use super::context::{RefinementContext, VariableCapabilities};
-use super::detection::symbol_appears_in_stmts;
+use super::detection::{symbol_appears_in_expr, symbol_appears_in_stmts};
+use super::expr::{codegen_expr_ctx, ExprCtx};
 use super::i64_map::map_rust_type;
 use super::types::codegen_type_expr;
 
@@ -1807,7 +1808,7 @@ pub(crate) fn is_simple_expr(expr: &Expr) -> bool {
 fn codegen_expr_simple(expr: &Expr, interner: &Interner) -> String {
     match expr {
         Expr::Literal(Literal::Number(n)) => format!("{}", n),
-        Expr::Literal(Literal::Float(f)) => format!("{:.1}", f),
+        Expr::Literal(Literal::Float(f)) => format!("{:?}", f),
         Expr::Literal(Literal::Boolean(b)) => format!("{}", b),
         Expr::Identifier(sym) => interner.resolve(*sym).to_string(),
         Expr::BinaryOp { op, left, right } => {
@@ -2059,7 +2060,11 @@ fn codegen_index_operand(expr: &Expr, interner: &Interner, variable_types: &Hash
         {
             format!("{}.expect_i64(\"Int\")", interner.resolve(*sym))
         }
-        Expr::BinaryOp { op, left, right } => {
+        Expr::BinaryOp {
+            op: op @ (BinaryOpKind::Add | BinaryOpKind::Subtract | BinaryOpKind::Multiply | BinaryOpKind::Divide | BinaryOpKind::Modulo),
+            left,
+            right,
+        } => {
             let l = codegen_index_operand(left, interner, variable_types);
             let r = codegen_index_operand(right, interner, variable_types);
             let op_str = match op {
@@ -2067,12 +2072,17 @@ fn codegen_index_operand(expr: &Expr, interner: &Interner, variable_types: &Hash
                 BinaryOpKind::Subtract => "-",
                 BinaryOpKind::Multiply => "*",
                 BinaryOpKind::Divide => "/",
-                BinaryOpKind::Modulo => "%",
-                _ => return format!("({})", l),
+                _ => "%",
             };
             format!("({} {} {})", l, op_str, r)
         }
-        _ => codegen_expr_simple(expr, interner),
+        _ if is_simple_expr(expr) => codegen_expr_simple(expr, interner),
+        // Anything richer (calls, bit and floor operators, elements) is rendered in full.
+        _ => {
+            let synced = HashSet::new();
+            let ecx = ExprCtx { variable_types, int_index_context: true, ..ExprCtx::bare(interner, &synced) };
+            format!("({})", codegen_expr_ctx(expr, &ecx))
+        }
     }
 }
 
-- 
2.43.0


From 05cf848d41c30f4f5e18e0a2e7fbe6a2cd6753e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 36/60] fix: compiled counting loops keep the counter's value
 after a break or a reuse

---
 .../src/codegen/peephole.rs                   | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/peephole.rs b/crates/logicaffeine_compile/src/codegen/peephole.rs
index 0750b04..c8b5588 100644
--- a/crates/logicaffeine_compile/src/codegen/peephole.rs
+++ b/crates/logicaffeine_compile/src/codegen/peephole.rs
@@ -168,6 +168,13 @@ pub(crate) fn try_emit_for_range_pattern<'a>(
     // New binding (`Let`) vs reused counter (`Set`) — drives whether emission
     // re-declares the loop variable.
     let is_new_binding = matches!(stmts[idx], Stmt::Let { .. });
+    // After a `Break` the counter is not the loop's limit, so a counter that
+    // outlives the loop must stay a real variable.
+    if body_breaks(body_without_increment)
+        && (!is_new_binding || symbol_appears_in_stmts(counter_sym, &stmts[idx + 2..]))
+    {
+        return None;
+    }
     // Literal start enables the zero-basing / tiling / fill specializations.
     let counter_start_literal = match counter_start_expr {
         Expr::Literal(Literal::Number(n)) => Some(*n),
@@ -509,12 +516,14 @@ pub(crate) fn try_emit_for_range_pattern<'a>(
     super::hoist::emit_hoist_close(&hoist_plan, &indent_str, ctx, &mut output);
 
     // Emit post-loop counter value only if the counter is used after the loop.
+    // A counter declared further out can also be read past the end of this block.
     let remaining_stmts = &stmts[idx + 2..];
-    if symbol_appears_in_stmts(counter_sym, remaining_stmts) {
+    if !is_new_binding || symbol_appears_in_stmts(counter_sym, remaining_stmts) {
         // OPT-7: If the next statement immediately overwrites the counter,
         // skip the max() computation and just declare the variable (if needed).
         let next_stmt_overwrites_counter = remaining_stmts.first().map_or(false, |s| {
-            matches!(s, Stmt::Set { target, .. } if *target == counter_sym)
+            matches!(s, Stmt::Set { target, value } if *target == counter_sym
+                && !symbol_appears_in_expr(counter_sym, value))
         });
 
         if next_stmt_overwrites_counter {
@@ -2290,6 +2299,19 @@ fn classify_counter_accesses(
         .collect()
 }
 
+/// Whether a `Break` in `stmts` leaves the loop they are the body of.
+fn body_breaks(stmts: &[Stmt]) -> bool {
+    stmts.iter().any(|s| match s {
+        Stmt::Break => true,
+        Stmt::If { then_block, else_block, .. } => {
+            body_breaks(then_block) || else_block.map_or(false, |b| body_breaks(b))
+        }
+        Stmt::Zone { body, .. } => body_breaks(body),
+        Stmt::Inspect { arms, .. } => arms.iter().any(|a| body_breaks(a.body)),
+        _ => false,
+    })
+}
+
 /// True if the block can exit a loop before the counter reaches its bound.
 pub(crate) fn body_has_early_exit(stmts: &[Stmt]) -> bool {
     for stmt in stmts {
-- 
2.43.0


From 8d9fe393efd10520be193a0ec1e61bc331e02b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 37/60] fix: compiled element writes evaluate the index before
 borrowing the list

---
 crates/logicaffeine_compile/src/codegen/stmt.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/codegen/stmt.rs b/crates/logicaffeine_compile/src/codegen/stmt.rs
index a8189e3..4a66fc3 100644
--- a/crates/logicaffeine_compile/src/codegen/stmt.rs
+++ b/crates/logicaffeine_compile/src/codegen/stmt.rs
@@ -3089,6 +3089,9 @@ pub fn codegen_stmt<'a>(
                     } else {
                         simplify_1based_index(index, interner, true, ctx.get_variable_types())
                     };
+                    // An index that itself reads a collection is evaluated before
+                    // the target is borrowed for writing: it may be the same one.
+                    let index_tmp = !super::peephole::is_simple_expr(index) || expr_reads_any_collection(index);
                     // BCE: when the oracle proves the store index in range, emit
                     // an unchecked store through the borrow (no bounds branch)
                     // with a `debug_assert!` net — the value-semantic analog of
@@ -3103,7 +3106,7 @@ pub fn codegen_stmt<'a>(
                     // first: under reference semantics that collection may alias
                     // the target (e.g. `prev` after `Set prev to curr`), and a
                     // live borrow() across the target's borrow_mut() panics.
-                    let needs_tmp = store_unchecked || expr_reads_any_collection(value);
+                    let needs_tmp = store_unchecked || index_tmp || expr_reads_any_collection(value);
                     if store_unchecked {
                         crate::optimize::mark_fired(crate::optimization::Opt::Unchecked);
                         let i0 = if is_zero_based_counter {
@@ -3113,9 +3116,21 @@ pub fn codegen_stmt<'a>(
                         };
                         writeln!(output, "{}debug_assert!(({}) >= 0 && ({}) < ({}.len() as i64), \"LOGOS oracle BCE: store out of range\");", indent_str, i0, i0, coll_str).unwrap();
                         writeln!(output, "{}let __set_val = {};", indent_str, value_str).unwrap();
+                        let index_part = if index_tmp {
+                            writeln!(output, "{}let __set_idx = {};", indent_str, index_part).unwrap();
+                            "__set_idx".to_string()
+                        } else {
+                            index_part
+                        };
                         writeln!(output, "{}unsafe {{ *{}.borrow_mut().get_unchecked_mut({}) = __set_val; }}", indent_str, coll_str, index_part).unwrap();
                     } else if needs_tmp {
                         writeln!(output, "{}let __set_val = {};", indent_str, value_str).unwrap();
+                        let index_part = if index_tmp {
+                            writeln!(output, "{}let __set_idx = {};", indent_str, index_part).unwrap();
+                            "__set_idx".to_string()
+                        } else {
+                            index_part
+                        };
                         writeln!(output, "{}{}.borrow_mut()[{}] = __set_val;", indent_str, coll_str, index_part).unwrap();
                     } else {
                         writeln!(output, "{}{}.borrow_mut()[{}] = {};", indent_str, coll_str, index_part, value_str).unwrap();
-- 
2.43.0


From 59eb9069ac2add6ad4da0fb2915609b5ae7f6f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 38/60] fix: loop versioning keeps a counter that is used after
 the loop

---
 crates/logicaffeine_compile/src/codegen/detection.rs   | 10 +++++++---
 .../logicaffeine_compile/src/optimize/bound_version.rs |  7 ++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/detection.rs b/crates/logicaffeine_compile/src/codegen/detection.rs
index 1d65674..f757e1b 100644
--- a/crates/logicaffeine_compile/src/codegen/detection.rs
+++ b/crates/logicaffeine_compile/src/codegen/detection.rs
@@ -1188,11 +1188,11 @@ pub(super) fn collect_expr_identifiers(expr: &Expr, identifiers: &mut HashSet<Sy
 
 /// Check if a symbol appears anywhere in a slice of statements (expressions or targets).
 /// Used by dead-counter elimination to decide if a post-loop counter binding is needed.
-pub(super) fn symbol_appears_in_stmts(sym: Symbol, stmts: &[&Stmt]) -> bool {
+pub(crate) fn symbol_appears_in_stmts(sym: Symbol, stmts: &[&Stmt]) -> bool {
     stmts.iter().any(|s| symbol_appears_in_stmt(sym, s))
 }
 
-pub(super) fn symbol_appears_in_stmt(sym: Symbol, stmt: &Stmt) -> bool {
+pub(crate) fn symbol_appears_in_stmt(sym: Symbol, stmt: &Stmt) -> bool {
     match stmt {
         Stmt::Let { value, .. } => symbol_appears_in_expr(sym, value),
         Stmt::Set { target, value, .. } => *target == sym || symbol_appears_in_expr(sym, value),
@@ -1223,6 +1223,9 @@ pub(super) fn symbol_appears_in_stmt(sym: Symbol, stmt: &Stmt) -> bool {
         Stmt::SetIndex { collection, index, value } => {
             symbol_appears_in_expr(sym, collection) || symbol_appears_in_expr(sym, index) || symbol_appears_in_expr(sym, value)
         }
+        Stmt::SetField { object, value, .. } => {
+            symbol_appears_in_expr(sym, object) || symbol_appears_in_expr(sym, value)
+        }
         Stmt::Inspect { target, arms, .. } => {
             symbol_appears_in_expr(sym, target)
                 || arms.iter().any(|arm| arm.body.iter().any(|s| symbol_appears_in_stmt(sym, s)))
@@ -1236,7 +1239,7 @@ pub(super) fn symbol_appears_in_stmt(sym: Symbol, stmt: &Stmt) -> bool {
     }
 }
 
-pub(super) fn symbol_appears_in_expr(sym: Symbol, expr: &Expr) -> bool {
+pub(crate) fn symbol_appears_in_expr(sym: Symbol, expr: &Expr) -> bool {
     match expr {
         Expr::Identifier(s) => *s == sym,
         Expr::BinaryOp { left, right, .. } => {
@@ -1260,6 +1263,7 @@ pub(super) fn symbol_appears_in_expr(sym: Symbol, expr: &Expr) -> bool {
             symbol_appears_in_expr(sym, collection) || symbol_appears_in_expr(sym, value)
         }
         Expr::FieldAccess { object, .. } => symbol_appears_in_expr(sym, object),
+        Expr::Not { operand } => symbol_appears_in_expr(sym, operand),
         Expr::List(items) | Expr::Tuple(items) => {
             items.iter().any(|i| symbol_appears_in_expr(sym, i))
         }
diff --git a/crates/logicaffeine_compile/src/optimize/bound_version.rs b/crates/logicaffeine_compile/src/optimize/bound_version.rs
index 3c5f049..bb02c80 100644
--- a/crates/logicaffeine_compile/src/optimize/bound_version.rs
+++ b/crates/logicaffeine_compile/src/optimize/bound_version.rs
@@ -83,7 +83,12 @@ fn version_block<'a>(
             if let (init @ (Stmt::Let { .. } | Stmt::Set { .. }), Stmt::While { .. }) =
                 (&stmts[i], &stmts[i + 1])
             {
-                if let Some(versioned) =
+                // A counter declared here and read after the loop has to stay in scope.
+                let escapes = matches!(init, Stmt::Let { var, .. }
+                    if crate::codegen::detection::symbol_appears_in_stmts(
+                        *var, &stmts[i + 2..].iter().collect::<Vec<_>>()));
+                if escapes {
+                } else if let Some(versioned) =
                     try_version_nest(init, &stmts[i + 1], helpers, ea, sa)
                 {
                     result.push(versioned);
-- 
2.43.0


From 5f520f948b4d1b3596f0fe84a628a35219699517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 39/60] fix: supercompiler forgets what a loop or a skipped
 statement writes

---
 .../src/optimize/supercompile.rs                | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/supercompile.rs b/crates/logicaffeine_compile/src/optimize/supercompile.rs
index ae24b19..b1a6cef 100644
--- a/crates/logicaffeine_compile/src/optimize/supercompile.rs
+++ b/crates/logicaffeine_compile/src/optimize/supercompile.rs
@@ -687,6 +687,10 @@ fn drive_stmt<'a>(
                 env.store.remove(sym);
             }
             let driven_body = drive_block(body, env, expr_arena, stmt_arena, interner, depth);
+            // The body may have run any number of times, including none.
+            for sym in &modified {
+                env.store.remove(sym);
+            }
             Some(Stmt::Repeat { pattern, iterable: driven_iter, body: driven_body })
         }
         Stmt::Show { object, recipient } => {
@@ -743,9 +747,15 @@ fn drive_stmt<'a>(
         }
         // Zone blocks: pass through unchanged. Propagating inside zones can
         // eliminate zone escape patterns that the Rust compiler needs to detect.
-        Stmt::Zone { .. } => Some(stmt),
-        // Pass through everything else unchanged
-        other => Some(other),
+        // Pass through everything else unchanged too; what it writes is no longer known.
+        other => {
+            let mut modified = Vec::new();
+            collect_modified_vars_stmt(&other, &mut modified);
+            for sym in &modified {
+                env.store.remove(sym);
+            }
+            Some(other)
+        }
     }
 }
 
@@ -784,6 +794,7 @@ fn collect_modified_vars_stmt(stmt: &Stmt, out: &mut Vec<Symbol>) {
     match stmt {
         Stmt::Set { target, .. } => out.push(*target),
         Stmt::Let { var, mutable: true, .. } => out.push(*var),
+        Stmt::Pop { into: Some(var), .. } => out.push(*var),
         Stmt::If { then_block, else_block, .. } => {
             for s in *then_block {
                 collect_modified_vars_stmt(s, out);
-- 
2.43.0


From c23dd9d6618bbfa078a371d4e96f8b2201bccb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 40/60] fix: compiled in-place list rewrites leave copies of
 the list alone

---
 .../logicaffeine_compile/src/codegen/hoist.rs |  3 ++
 .../src/codegen/marshal.rs                    |  4 +-
 .../src/codegen/peephole.rs                   | 43 +++++++++++--------
 .../logicaffeine_compile/src/codegen/stmt.rs  | 12 ++++++
 4 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/hoist.rs b/crates/logicaffeine_compile/src/codegen/hoist.rs
index 511af92..35dd17e 100644
--- a/crates/logicaffeine_compile/src/codegen/hoist.rs
+++ b/crates/logicaffeine_compile/src/codegen/hoist.rs
@@ -49,6 +49,7 @@ use crate::intern::{Interner, Symbol};
 
 use super::context::RefinementContext;
 use super::peephole::body_modifies_var;
+use super::stmt::cow_line;
 
 thread_local! {
     /// Per-thread test override for the borrow-hoist kill switch. Tests set
@@ -577,6 +578,7 @@ pub(crate) fn emit_hoist_open(
                 ctx.register_variable_type(e.sym, format!("&[{}]", e.elem_ty));
             }
             (HoistKind::MutSlice, false) => {
+                output.push_str(&cow_line(e.sym, ctx, interner, &format!("{}    ", indent_str)));
                 writeln!(output, "{}    let mut __{}_g = {}.borrow_mut();", indent_str, n, n).unwrap();
                 writeln!(output, "{}    let {} = &mut __{}_g[..];", indent_str, n, n).unwrap();
                 ctx.register_variable_type(e.sym, format!("&mut [{}]", e.elem_ty));
@@ -586,6 +588,7 @@ pub(crate) fn emit_hoist_open(
                 // without a per-call borrow. Registered as `Vec<T>` to reuse
                 // the existing owned-Vec emission (index, push, length all
                 // auto-deref through the `&mut Vec` shadow).
+                output.push_str(&cow_line(e.sym, ctx, interner, &format!("{}    ", indent_str)));
                 writeln!(output, "{}    let mut __{}_g = {}.borrow_mut();", indent_str, n, n).unwrap();
                 writeln!(output, "{}    let {} = &mut *__{}_g;", indent_str, n, n).unwrap();
                 ctx.register_variable_type(e.sym, format!("Vec<{}>", e.elem_ty));
diff --git a/crates/logicaffeine_compile/src/codegen/marshal.rs b/crates/logicaffeine_compile/src/codegen/marshal.rs
index b986e16..b3746d7 100644
--- a/crates/logicaffeine_compile/src/codegen/marshal.rs
+++ b/crates/logicaffeine_compile/src/codegen/marshal.rs
@@ -202,12 +202,12 @@ pub(super) fn codegen_c_export_with_marshaling(
                 si += 1 + skip;
                 continue;
             }
-            if let Some((code, skip)) = try_emit_prefix_reverse(&stmt_refs, si, interner, 1, func_ctx.get_variable_types()) {
+            if let Some((code, skip)) = try_emit_prefix_reverse(&stmt_refs, si, interner, 1, &func_ctx) {
                 output.push_str(&code);
                 si += 1 + skip;
                 continue;
             }
-            if let Some((code, skip)) = try_emit_swap_pattern(&stmt_refs, si, interner, 1, func_ctx.get_variable_types(), func_ctx.oracle()) {
+            if let Some((code, skip)) = try_emit_swap_pattern(&stmt_refs, si, interner, 1, &func_ctx) {
                 output.push_str(&code);
                 si += 1 + skip;
                 continue;
diff --git a/crates/logicaffeine_compile/src/codegen/peephole.rs b/crates/logicaffeine_compile/src/codegen/peephole.rs
index c8b5588..0d82c79 100644
--- a/crates/logicaffeine_compile/src/codegen/peephole.rs
+++ b/crates/logicaffeine_compile/src/codegen/peephole.rs
@@ -9,6 +9,7 @@ use super::context::{RefinementContext, VariableCapabilities};
 use super::detection::{symbol_appears_in_expr, symbol_appears_in_stmts};
 use super::expr::{codegen_expr_ctx, ExprCtx};
 use super::i64_map::map_rust_type;
+use super::stmt::cow_line;
 use super::types::codegen_type_expr;
 
 /// Collection type information for with_capacity pattern detection.
@@ -470,12 +471,12 @@ pub(crate) fn try_emit_for_range_pattern<'a>(
             bi += 1 + skip;
             continue;
         }
-        if let Some((code, skip)) = try_emit_prefix_reverse(&body_refs, bi, interner, indent + 1, ctx.get_variable_types()) {
+        if let Some((code, skip)) = try_emit_prefix_reverse(&body_refs, bi, interner, indent + 1, ctx) {
             output.push_str(&code);
             bi += 1 + skip;
             continue;
         }
-        if let Some((code, skip)) = try_emit_swap_pattern(&body_refs, bi, interner, indent + 1, ctx.get_variable_types(), ctx.oracle()) {
+        if let Some((code, skip)) = try_emit_swap_pattern(&body_refs, bi, interner, indent + 1, ctx) {
             output.push_str(&code);
             bi += 1 + skip;
             continue;
@@ -490,7 +491,7 @@ pub(crate) fn try_emit_for_range_pattern<'a>(
             bi += 1 + skip;
             continue;
         }
-        if let Some((code, skip)) = try_emit_rotate_left_pattern(&body_refs, bi, interner, indent + 1, ctx.get_variable_types()) {
+        if let Some((code, skip)) = try_emit_rotate_left_pattern(&body_refs, bi, interner, indent + 1, ctx) {
             output.push_str(&code);
             bi += 1 + skip;
             continue;
@@ -2968,16 +2969,16 @@ pub(crate) fn try_block_peepholes<'a>(
     if let r @ Some(_) = try_emit_for_range_pattern(stmts, idx, interner, indent, mutable_vars, ctx, lww_fields, mv_fields, synced_vars, var_caps, async_functions, pipe_vars, boxed_fields, registry, type_env) {
         return r;
     }
-    if let r @ Some(_) = try_emit_prefix_reverse(stmts, idx, interner, indent, ctx.get_variable_types()) {
+    if let r @ Some(_) = try_emit_prefix_reverse(stmts, idx, interner, indent, ctx) {
         return r;
     }
-    if let r @ Some(_) = try_emit_swap_pattern(stmts, idx, interner, indent, ctx.get_variable_types(), ctx.oracle()) {
+    if let r @ Some(_) = try_emit_swap_pattern(stmts, idx, interner, indent, ctx) {
         return r;
     }
     if let r @ Some(_) = try_emit_seq_copy_pattern(stmts, idx, interner, indent, ctx) {
         return r;
     }
-    if let r @ Some(_) = try_emit_rotate_left_pattern(stmts, idx, interner, indent, ctx.get_variable_types()) {
+    if let r @ Some(_) = try_emit_rotate_left_pattern(stmts, idx, interner, indent, ctx) {
         return r;
     }
     None
@@ -3600,8 +3601,9 @@ pub(crate) fn try_emit_prefix_reverse<'a>(
     idx: usize,
     interner: &Interner,
     indent: usize,
-    variable_types: &HashMap<Symbol, String>,
+    ctx: &RefinementContext,
 ) -> Option<(String, usize)> {
+    let variable_types = ctx.get_variable_types();
     let (cond, body) = match stmts[idx] {
         Stmt::While { cond, body, .. } => (cond, body),
         _ => return None,
@@ -3672,8 +3674,9 @@ pub(crate) fn try_emit_prefix_reverse<'a>(
         _ => return None,
     };
     let indent_str = "    ".repeat(indent);
+    let cow = cow_line(coll, ctx, interner, &indent_str);
     let code = format!(
-        "{indent_str}{slice_owner}[({lo_name} - 1) as usize..{hi_name} as usize].reverse();\n"
+        "{cow}{indent_str}{slice_owner}[({lo_name} - 1) as usize..{hi_name} as usize].reverse();\n"
     );
     Some((code, 0))
 }
@@ -3698,9 +3701,10 @@ pub(crate) fn try_emit_swap_pattern<'a>(
     idx: usize,
     interner: &Interner,
     indent: usize,
-    variable_types: &HashMap<Symbol, String>,
-    oracle: Option<&crate::optimize::OracleFacts>,
+    ctx: &RefinementContext,
 ) -> Option<(String, usize)> {
+    let variable_types = ctx.get_variable_types();
+    let oracle = ctx.oracle();
     if idx + 2 >= stmts.len() {
         return None;
     }
@@ -3730,7 +3734,7 @@ pub(crate) fn try_emit_swap_pattern<'a>(
     // Try Pattern B first: unconditional 3-statement swap (more general)
     // Statement 2: Set item I of arr to item J of arr.
     // Statement 3: Set item J of arr to tmp.
-    if let Some(result) = try_emit_unconditional_swap(stmts, idx, a_sym, arr_sym_1, idx_expr_1, interner, indent, variable_types, oracle) {
+    if let Some(result) = try_emit_unconditional_swap(stmts, idx, a_sym, arr_sym_1, idx_expr_1, interner, indent, ctx) {
         return Some(result);
     }
 
@@ -3867,6 +3871,7 @@ pub(crate) fn try_emit_swap_pattern<'a>(
             }
 
             if is_logos_seq {
+                output.push_str(&cow_line(arr_sym_1, ctx, interner, &indent_str));
                 writeln!(output, "{}{{ let mut __bm = {}.borrow_mut();", indent_str, arr_name).unwrap();
                 writeln!(output, "{}if __bm[{}] {} __bm[{}] {{",
                     indent_str, g_lhs, op_str, g_rhs,
@@ -5207,8 +5212,9 @@ pub(crate) fn try_emit_rotate_left_pattern<'a>(
     idx: usize,
     interner: &Interner,
     indent: usize,
-    variable_types: &HashMap<Symbol, String>,
+    ctx: &RefinementContext,
 ) -> Option<(String, usize)> {
+    let variable_types = ctx.get_variable_types();
     if idx + 3 >= stmts.len() {
         return None;
     }
@@ -5380,6 +5386,7 @@ pub(crate) fn try_emit_rotate_left_pattern<'a>(
         if symbol_appears_in_stmts(tmp_sym, remaining) {
             writeln!(output, "{}let {} = {}.borrow()[0].clone();", indent_str, tmp_name, arr_name).unwrap();
         }
+        output.push_str(&cow_line(arr_sym, ctx, interner, &indent_str));
         writeln!(output, "{}{}.borrow_mut()[0..=({} as usize)].rotate_left(1);",
             indent_str, arr_name, limit_str).unwrap();
     } else {
@@ -5406,9 +5413,10 @@ fn try_emit_unconditional_swap<'a>(
     idx_expr_1: &'a Expr<'a>,
     interner: &Interner,
     indent: usize,
-    variable_types: &HashMap<Symbol, String>,
-    oracle: Option<&crate::optimize::OracleFacts>,
+    ctx: &RefinementContext,
 ) -> Option<(String, usize)> {
+    let variable_types = ctx.get_variable_types();
+    let oracle = ctx.oracle();
     if idx + 2 >= stmts.len() {
         return None;
     }
@@ -5477,6 +5485,7 @@ fn try_emit_unconditional_swap<'a>(
 
     let mut output = String::new();
     if is_logos_seq {
+        output.push_str(&cow_line(arr_sym, ctx, interner, &indent_str));
         writeln!(output, "{}{{ let mut __bm = {}.borrow_mut();", indent_str, arr_name).unwrap();
         writeln!(output, "{}let __swap_tmp = __bm[{}];",
             indent_str, idx1_simplified).unwrap();
@@ -6402,12 +6411,12 @@ pub(crate) fn try_emit_buffer_reuse_while<'a>(
             bi += 1 + skip;
             continue;
         }
-        if let Some((code, skip)) = try_emit_prefix_reverse(&body_refs, bi, interner, indent + 1, ctx.get_variable_types()) {
+        if let Some((code, skip)) = try_emit_prefix_reverse(&body_refs, bi, interner, indent + 1, ctx) {
             output.push_str(&code);
             bi += 1 + skip;
             continue;
         }
-        if let Some((code, skip)) = try_emit_swap_pattern(&body_refs, bi, interner, indent + 1, ctx.get_variable_types(), ctx.oracle()) {
+        if let Some((code, skip)) = try_emit_swap_pattern(&body_refs, bi, interner, indent + 1, ctx) {
             output.push_str(&code);
             bi += 1 + skip;
             continue;
@@ -6417,7 +6426,7 @@ pub(crate) fn try_emit_buffer_reuse_while<'a>(
             bi += 1 + skip;
             continue;
         }
-        if let Some((code, skip)) = try_emit_rotate_left_pattern(&body_refs, bi, interner, indent + 1, ctx.get_variable_types()) {
+        if let Some((code, skip)) = try_emit_rotate_left_pattern(&body_refs, bi, interner, indent + 1, ctx) {
             output.push_str(&code);
             bi += 1 + skip;
             continue;
diff --git a/crates/logicaffeine_compile/src/codegen/stmt.rs b/crates/logicaffeine_compile/src/codegen/stmt.rs
index 4a66fc3..8c12812 100644
--- a/crates/logicaffeine_compile/src/codegen/stmt.rs
+++ b/crates/logicaffeine_compile/src/codegen/stmt.rs
@@ -661,6 +661,18 @@ fn emit_cow(
     }
 }
 
+/// The copy-on-write guard of [`emit_cow`] for a collection known by its symbol.
+pub(crate) fn cow_line(
+    sym: Symbol,
+    ctx: &RefinementContext,
+    interner: &Interner,
+    indent_str: &str,
+) -> String {
+    let mut line = String::new();
+    emit_cow(&Expr::Identifier(sym), ctx, &RustNames::new(interner), indent_str, &mut line);
+    line
+}
+
 /// If a loop body's sole write to a registered scratch buffer identifies it, return that buffer and its
 /// scalarization info. Only the buffer's own fill loop pushes it (post-fill reads are proven read-only by
 /// `detect_scratch_buffers`), so any loop that pushes a registered scratch buffer IS its fill loop.
-- 
2.43.0


From 758aab5111067ec0712afb82896f05b02929510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 41/60] fix: compiled push evaluates its value before borrowing
 the list

---
 crates/logicaffeine_compile/src/codegen/stmt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/codegen/stmt.rs b/crates/logicaffeine_compile/src/codegen/stmt.rs
index 8c12812..655b412 100644
--- a/crates/logicaffeine_compile/src/codegen/stmt.rs
+++ b/crates/logicaffeine_compile/src/codegen/stmt.rs
@@ -12,7 +12,7 @@ use super::detection::{
     collect_crdt_register_fields, collect_boxed_fields, collect_expr_identifiers,
     collect_stmt_identifiers, expr_debug_prefix, expr_reads_any_collection,
     get_root_identifier_for_mutability, is_copy_type_expr, is_hashable_type,
-    parse_aos_tag,
+    parse_aos_tag, symbol_appears_in_expr,
 };
 use super::expr::{
     codegen_expr, codegen_expr_with_async, codegen_expr_boxed,
@@ -2983,6 +2983,13 @@ pub fn codegen_stmt<'a>(
             let narrowed_push = matches!(collection, Expr::Identifier(c) if ctx.is_narrowed(*c));
             if narrowed_push {
                 writeln!(output, "{}{}.push(({}) as i32);", indent_str, coll_str, val_str).unwrap();
+            } else if matches!(value, Expr::Call { .. } | Expr::BinaryOp { .. })
+                && matches!(collection, Expr::Identifier(c) if symbol_appears_in_expr(*c, value))
+            {
+                // A call may be lent a borrow of the very collection pushed to;
+                // the borrow must end before the push takes it for writing.
+                writeln!(output, "{}let __push_val = {};", indent_str, val_str).unwrap();
+                writeln!(output, "{}{}.push(__push_val);", indent_str, coll_str).unwrap();
             } else {
                 writeln!(output, "{}{}.push({});", indent_str, coll_str, val_str).unwrap();
             }
-- 
2.43.0


From 919b797eadb3919d7c8454d03744adc6a969df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 42/60] fix: value ranges after a loop come from the end of its
 body and its breaks

---
 .../src/optimize/abstract_interp.rs           | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index e7ed4fb..4595259 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -5536,7 +5536,24 @@ fn rich_walk_loop(
         }
         rich_walk_block(body, &mut record_state, facts);
         let mut after = rich_join(st, &inside);
-        if let Some(c) = cond {
+        // `inside` was narrowed by the condition at the top of the body; what
+        // leaves the loop is the state at the END of the body (a step may
+        // carry the counter well past the bound).
+        for &m in &mutated {
+            let left = after.intervals.get_var(&m).join(&record_state.intervals.get_var(&m));
+            after.intervals.set_var(m, left);
+            let len = after.intervals.get_length(&m).join(&record_state.intervals.get_length(&m));
+            after.intervals.set_length(m, len);
+        }
+        // A Break leaves from the middle of the body, with the condition still true.
+        let breaks = body.iter().any(has_break);
+        if breaks {
+            for &m in &mutated {
+                after.invalidate_var(m);
+                after.intervals.set_length(m, Interval::non_negative());
+            }
+        }
+        if let Some(c) = cond.filter(|_| !breaks) {
             narrow_state_negated(c, &mut after.intervals);
             // Allocation-size fact: a counted build loop establishes a length
             // bound on the array it fills (`st` is the pre-loop entry state —
-- 
2.43.0


From 2dbf780536066ade2be711db1f2dac7119155340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:54 +0000
Subject: [PATCH 43/60] fix: list length facts follow rebinding and do not leak
 to copies

---
 .../src/optimize/abstract_interp.rs           | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index 4595259..ed7b133 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -4981,6 +4981,12 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
     // Rebinding discards the old binding's element bound; the producer arms
     // below re-establish it for fresh/aliased collections.
     st.intervals.clear_elem(&var);
+    // So does its length, unless an arm below knows the new one.
+    let known_len = match value {
+        Expr::Identifier(src) => st.intervals.get_length(src),
+        _ => Interval::non_negative(),
+    };
+    st.intervals.set_length(var, known_len);
     // Record an affine scalar definition `var = E` (E linear over ≥1 variable)
     // for the LIA bounds prover — a constant value is already in the interval
     // domain, so only variable-bearing forms are worth an equality fact. NEVER
@@ -5136,6 +5142,21 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
     }
 }
 
+/// Record that `resized` now has this shape and length. Any other name `a` of
+/// the allocation MAY have been resized with it — or may have kept its own
+/// length, the write having gone to a copy.
+fn rich_resize_to(
+    a: Symbol,
+    resized: Symbol,
+    shape: &CollectionShape,
+    len: &Interval,
+    st: &mut RichAbstractState,
+) {
+    st.shapes.insert(a, shape.clone());
+    let new_len = if a == resized { len.clone() } else { st.intervals.get_length(&a).join(len) };
+    st.intervals.set_length(a, new_len);
+}
+
 /// `Push`/`Add` — one element added to a shared allocation: grow the shape and
 /// length of the collection and every variable that aliases it.
 fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
@@ -5143,8 +5164,7 @@ fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
         let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).pushed();
         let new_len = st.intervals.get_length(sym).add(&Interval::exact(1));
         for a in st.aliases.may_alias(*sym) {
-            st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
+            rich_resize_to(a, *sym, &new_shape, &new_len, st);
             // A resize moves length off its build-time relation — drop it
             // (conservative; a grow keeps `>=` valid but we re-derive cleanly).
             st.length_def.remove(&a);
@@ -5162,7 +5182,8 @@ fn rich_may_resize(collection: &Expr, least: i64, most: i64, st: &mut RichAbstra
             let shape = st.shapes.get(&a).cloned().unwrap_or(CollectionShape::Top);
             let keeps = most > 0 && shape.is_definitely_nonempty();
             st.shapes.insert(a, if keeps { CollectionShape::NonEmpty } else { CollectionShape::Top });
-            st.intervals.set_length(a, new_len.clone());
+            let len = if a == *sym { new_len.clone() } else { st.intervals.get_length(&a).join(&new_len) };
+            st.intervals.set_length(a, len);
             if least < 0 {
                 st.length_def.remove(&a);
             }
@@ -5176,8 +5197,7 @@ fn rich_shrink(collection: &Expr, st: &mut RichAbstractState) {
         let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).popped();
         let new_len = st.intervals.get_length(sym).sub(&Interval::exact(1));
         for a in st.aliases.may_alias(*sym) {
-            st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
+            rich_resize_to(a, *sym, &new_shape, &new_len, st);
             // A shrink can break the `length(arr) >= n` lower bound — drop it.
             st.length_def.remove(&a);
         }
-- 
2.43.0


From 6a2502dd747223647d664856b55af1346f108d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:40:58 +0000
Subject: [PATCH 44/60] fix: compiled lists declared with a type keep their
 initial elements

---
 .../src/codegen/peephole.rs                   | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/peephole.rs b/crates/logicaffeine_compile/src/codegen/peephole.rs
index 0d82c79..6dba490 100644
--- a/crates/logicaffeine_compile/src/codegen/peephole.rs
+++ b/crates/logicaffeine_compile/src/codegen/peephole.rs
@@ -1559,7 +1559,7 @@ pub(crate) fn try_emit_vec_fill_pattern<'a>(
                 None
             };
 
-            match type_from_annotation.or(type_from_new) {
+            match type_from_annotation.filter(|_| starts_empty(value)).or(type_from_new) {
                 Some(t) => (*var, t, *mutable),
                 None => return None,
             }
@@ -4119,7 +4119,7 @@ pub(crate) fn try_emit_seq_from_slice_pattern<'a>(
                 None
             };
 
-            match type_from_annotation.or(type_from_new) {
+            match type_from_annotation.filter(|_| starts_empty(value)).or(type_from_new) {
                 Some(t) => (*var, t),
                 None => return None,
             }
@@ -4524,6 +4524,17 @@ fn dense_cap_rust(m: Symbol, ctx: &RefinementContext, interner: &Interner) -> Op
     crate::optimize::lin_to_rust(cap, interner)
 }
 
+/// Whether a declared collection begins with nothing in it — the fill and
+/// pre-sizing patterns replace the initial value, so it must hold no elements.
+fn starts_empty(value: &Expr) -> bool {
+    match value {
+        Expr::New { init_fields, .. } => init_fields.is_empty(),
+        Expr::List(items) => items.is_empty(),
+        Expr::WithCapacity { value, .. } => starts_empty(value),
+        _ => false,
+    }
+}
+
 pub(crate) fn try_emit_vec_with_capacity_pattern<'a>(
     stmts: &[&Stmt<'a>],
     idx: usize,
@@ -4580,7 +4591,7 @@ pub(crate) fn try_emit_vec_with_capacity_pattern<'a>(
                 None
             };
 
-            match type_from_annotation.or(type_from_new) {
+            match type_from_annotation.filter(|_| starts_empty(value)).or(type_from_new) {
                 Some(info) => (*var, info, *mutable),
                 None => return None,
             }
@@ -4970,7 +4981,7 @@ fn detect_sibling_collection<'a>(
         None
     };
 
-    let info = type_from_annotation.or(type_from_new)?;
+    let info = type_from_annotation.filter(|_| starts_empty(value)).or(type_from_new)?;
 
     // Check if this variable is pushed to in the loop body
     let has_push = match &info {
@@ -5049,7 +5060,7 @@ pub(crate) fn try_emit_merge_capacity_pattern<'a>(
                 None
             };
 
-            match type_from_annotation.or(type_from_new) {
+            match type_from_annotation.filter(|_| starts_empty(value)).or(type_from_new) {
                 Some(elem) => (*var, elem),
                 None => return None,
             }
@@ -6045,7 +6056,7 @@ pub(crate) fn detect_scratch_hoist_in_body<'a>(
                 } else {
                     None
                 };
-                match type_from_new.or(type_from_annotation) {
+                match type_from_new.or(type_from_annotation.filter(|_| starts_empty(value))) {
                     Some(t) => (*var, t),
                     None => continue,
                 }
@@ -6190,7 +6201,7 @@ pub(crate) fn detect_buffer_reuse_in_body<'a>(
                 } else {
                     None
                 };
-                if let Some(t) = type_from_annotation.or(type_from_new) {
+                if let Some(t) = type_from_annotation.filter(|_| starts_empty(value)).or(type_from_new) {
                     found = Some((*var, t, bi));
                     break;
                 }
-- 
2.43.0


From f5275ca81e0ded7143e4789096ccf2460585cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:40:58 +0000
Subject: [PATCH 45/60] fix: compiled one-letter texts stay texts where they
 are interpolated or stored

---
 .../src/codegen/detection.rs                  | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/detection.rs b/crates/logicaffeine_compile/src/codegen/detection.rs
index f757e1b..485d42d 100644
--- a/crates/logicaffeine_compile/src/codegen/detection.rs
+++ b/crates/logicaffeine_compile/src/codegen/detection.rs
@@ -329,7 +329,9 @@ fn check_single_char_usage(
             }
             Stmt::Show { object, .. } => {
                 // Show ch is fine — we'll emit `println!("{}", ch as char)`
-                // But don't check deeper — identifiers in Show are OK
+                if !matches!(object, Expr::Identifier(_)) {
+                    check_expr_usage_strict(object, candidates, disqualified);
+                }
             }
             Stmt::Let { value, .. } => {
                 // `Let y be ch` would assign a u8 to y, which may not work.
@@ -361,7 +363,13 @@ fn check_single_char_usage(
             Stmt::FunctionDef { body, .. } => {
                 check_single_char_usage(body, candidates, disqualified);
             }
-            _ => {}
+            other => {
+                for sym in candidates {
+                    if symbol_appears_in_stmt(*sym, other) {
+                        disqualified.insert(*sym);
+                    }
+                }
+            }
         }
     }
 }
@@ -390,7 +398,8 @@ fn check_expr_usage(
                 disqualified.insert(*sym);
             }
         }
-        _ => {}
+        Expr::Identifier(_) => {}
+        other => check_expr_usage_strict(other, candidates, disqualified),
     }
 }
 
@@ -422,7 +431,11 @@ fn check_expr_usage_strict(expr: &Expr, candidates: &HashSet<Symbol>, disqualifi
                 check_expr_usage_strict(item, candidates, disqualified);
             }
         }
-        _ => {}
+        other => {
+            let mut named = HashSet::new();
+            collect_expr_identifiers(other, &mut named);
+            disqualified.extend(named.intersection(candidates).copied());
+        }
     }
 }
 
-- 
2.43.0


From cdae71bd8c2f7612ebc06b458e50e07ad877c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:56:37 +0000
Subject: [PATCH 46/60] fix: writing one element does not bound a list whose
 other elements are unknown

---
 crates/logicaffeine_compile/src/optimize/abstract_interp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index ed7b133..e02d056 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -4903,7 +4903,10 @@ fn observe_written_elem(collection: &Expr, value: &Expr, st: &mut RichAbstractSt
             // Freshness BEFORE the concrete update: a fresh array (⊥ element
             // interval) is SEEDED by the first write; a non-fresh one JOINS.
             let was_fresh = st.intervals.get_elem(&a).is_bottom();
-            st.intervals.observe_elem(a, v.clone());
+            // A list whose elements are unknown stays unknown.
+            if st.intervals.elem.contains_key(&a) {
+                st.intervals.observe_elem(a, v.clone());
+            }
             // Element TYPE: every element must satisfy the join over all writes.
             // A fresh array is seeded; a non-fresh one joins. An unknown write
             // type (`Top`) forces the element type to ⊤, exactly as the symbolic
-- 
2.43.0


From 1ee96f8523eaf0f1b955ed2b9d30c8226c0c257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:32:45 +0000
Subject: [PATCH 47/60] fix: the receiver's byte limit bounds a compressed
 message after inflation too

---
 .../src/concurrency/marshal.rs                | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 888e503..b8a9a2b 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -2966,14 +2966,26 @@ pub fn best_compressed_len(body: &[u8]) -> usize {
 
 /// Inflate `body` that was compressed with `codec`. `None` on any malformed input.
 fn decompress_body(codec: WireCompression, body: &[u8]) -> Option<Vec<u8>> {
+    // The receiver's byte budget bounds the INFLATED body too: a few kilobytes may inflate to gigabytes.
+    let max = receive_limits().max_bytes;
     match codec {
         WireCompression::None => Some(body.to_vec()),
-        WireCompression::Deflate => miniz_oxide::inflate::decompress_to_vec(body).ok(),
-        WireCompression::Lz4 => lz4_flex::decompress_size_prepended(body).ok(),
+        WireCompression::Deflate => miniz_oxide::inflate::decompress_to_vec_with_limit(body, max).ok(),
+        WireCompression::Lz4 => {
+            let claimed = u32::from_le_bytes(body.get(..4)?.try_into().ok()?) as usize;
+            if claimed > max {
+                return None;
+            }
+            lz4_flex::decompress_size_prepended(body).ok()
+        }
         WireCompression::Zstd => {
             #[cfg(not(target_arch = "wasm32"))]
             {
-                zstd::decode_all(body).ok()
+                use std::io::Read;
+                let mut out = Vec::new();
+                let dec = zstd::Decoder::new(body).ok()?;
+                dec.take((max as u64).saturating_add(1)).read_to_end(&mut out).ok()?;
+                (out.len() <= max).then_some(out)
             }
             #[cfg(target_arch = "wasm32")]
             {
@@ -2987,10 +2999,11 @@ fn decompress_body(codec: WireCompression, body: &[u8]) -> Option<Vec<u8>> {
 /// parity oracle). A standard zstd frame in, the inflated bytes out.
 fn zstd_decode_ruzstd(body: &[u8]) -> Option<Vec<u8>> {
     use std::io::Read;
-    let mut dec = ruzstd::StreamingDecoder::new(body).ok()?;
+    let max = receive_limits().max_bytes;
+    let dec = ruzstd::StreamingDecoder::new(body).ok()?;
     let mut out = Vec::new();
-    dec.read_to_end(&mut out).ok()?;
-    Some(out)
+    dec.take((max as u64).saturating_add(1)).read_to_end(&mut out).ok()?;
+    (out.len() <= max).then_some(out)
 }
 
 // ---- Group varint (Stream VByte layout) for int arrays ------------------------
-- 
2.43.0


From 5e989524a1fcdb1715b313180b67bb6c0b38a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:33:17 +0000
Subject: [PATCH 48/60] fix: every decoded collection is held to the receiver's
 element limit

---
 .../src/concurrency/marshal.rs                | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index b8a9a2b..ce6f8a4 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -3085,7 +3085,7 @@ fn gv_encode<I: Iterator<Item = i64> + Clone>(out: &mut Vec<u8>, vals: I, n: usi
 }
 
 fn gv_decode(buf: &[u8], pos: &mut usize) -> Option<Vec<i64>> {
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let control_len = n.div_ceil(4);
     let control = buf.get(*pos..pos.checked_add(control_len)?)?;
     let mut dpos = *pos + control_len;
@@ -3163,7 +3163,7 @@ fn gv_shuffle_masks() -> &'static [[u8; 16]; 16] {
 #[target_feature(enable = "ssse3")]
 unsafe fn gv_decode_ssse3(buf: &[u8], pos: &mut usize) -> Option<Vec<i64>> {
     use std::arch::x86_64::*;
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let control_len = n.div_ceil(4);
     let control = buf.get(*pos..pos.checked_add(control_len)?)?;
     let mut dpos = *pos + control_len;
@@ -4957,7 +4957,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             }))
         }
         T_INTS_FIXED => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let nbytes = n.checked_mul(8)?;
             let raw = buf.get(*pos..pos.checked_add(nbytes)?)?;
             *pos += nbytes;
@@ -4983,7 +4983,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         // 8-byte-aligned i64 blob: skip the pad, then the same memcpy as T_INTS_FIXED.
         T_INTS_ALIGNED => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let pad = *buf.get(*pos)? as usize;
             *pos += 1 + pad;
             let nbytes = n.checked_mul(8)?;
@@ -5107,7 +5107,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         // 8-byte-aligned f64 blob: skip the pad, then the same memcpy as T_FLOATS.
         T_FLOATS_ALIGNED => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let pad = *buf.get(*pos)? as usize;
             *pos += 1 + pad;
             let nbytes = n.checked_mul(8)?;
@@ -5131,7 +5131,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         // Lossless XOR-delta float array: undo the running XOR and rebuild each f64
         // from its exact bits (NaN/Inf/±0/subnormals preserved).
         T_FLOATS_XOR => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut v = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut prev = 0u64;
             for _ in 0..n {
@@ -5142,7 +5142,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             RuntimeValue::List(Rc::new(RefCell::new(ListRepr::Floats(v))))
         }
         T_BOOLS => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let nbytes = n.div_ceil(8);
             let bits = buf.get(*pos..pos.checked_add(nbytes)?)?;
             *pos += nbytes;
@@ -5192,7 +5192,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             RuntimeValue::List(Rc::new(RefCell::new(ListRepr::Bools(v))))
         }
         T_STRINGS => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut ends = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut total: u64 = 0;
             for _ in 0..n {
@@ -5294,7 +5294,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         // Dictionary string column: the distinct strings once, then a bit-packed index per row.
         // Reconstruct the flat `Strings` buffer by replaying each row's dictionary entry.
         T_STRINGS_DICT => {
-            let d = read_uvarint(buf, pos)? as usize;
+            let d = bounded_count(read_uvarint(buf, pos)?)?;
             let mut dict: Vec<&[u8]> = Vec::with_capacity(d.min(PREALLOC_CAP));
             for _ in 0..d {
                 let len = read_uvarint(buf, pos)? as usize;
@@ -5305,7 +5305,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 dict.push(s);
                 *pos += len;
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let iw = *buf.get(*pos)?;
             *pos += 1;
             if iw > 64 {
@@ -5347,8 +5347,8 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         T_SET_STRINGS => {
             // Front-coded: reconstruct each member from `common` bytes of the previous + the suffix.
-            let n = read_uvarint(buf, pos)? as usize;
-            let mut items = Vec::with_capacity(n);
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
+            let mut items = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut prev = String::new();
             for _ in 0..n {
                 let common = read_uvarint(buf, pos)? as usize;
@@ -5363,7 +5363,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             RuntimeValue::Set(Rc::new(RefCell::new(items)))
         }
         T_MAP => {
-            let n = read_uvarint(buf, pos)?;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut m = MapStorage::default();
             for _ in 0..n {
                 let k = native_decode(buf, pos)?;
@@ -5389,7 +5389,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 2 => {
                     // Front-coded string column: reconstruct each value from `common` bytes of the
                     // previous + the suffix (mirrors T_SET_STRINGS).
-                    let n = read_uvarint(buf, pos)? as usize;
+                    let n = bounded_count(read_uvarint(buf, pos)?)?;
                     let mut vs = Vec::with_capacity(n.min(keys.len().saturating_add(1)));
                     let mut prev = String::new();
                     for _ in 0..n {
@@ -5410,7 +5410,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                     _ => return None,
                 },
                 0 => {
-                    let n = read_uvarint(buf, pos)? as usize;
+                    let n = bounded_count(read_uvarint(buf, pos)?)?;
                     let mut vs = Vec::with_capacity(n.min(keys.len().saturating_add(1)));
                     for _ in 0..n {
                         vs.push(native_decode(buf, pos)?);
@@ -5507,7 +5507,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             for _ in 0..f {
                 field_names.push(read_str(buf, pos)?);
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             *pos = pos.checked_add(n.checked_mul(4)?)?; // skip the row offset table
             if *pos > buf.len() {
                 return None;
@@ -5533,7 +5533,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             }
             let kinds = buf.get(*pos..pos.checked_add(f)?)?.to_vec();
             *pos += f;
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let (offsets, stride) = fview_layout(&kinds);
             let rows_start = *pos;
             let rows_len = n.checked_mul(stride)?;
@@ -5667,7 +5667,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         // `ranks` are recomputed here. Nullary enums have all-zero arities.
         T_INDUCTIVES => {
             let inductive_type = read_str(buf, pos)?;
-            let d = read_uvarint(buf, pos)? as usize;
+            let d = bounded_count(read_uvarint(buf, pos)?)?;
             let mut ctor_dict = Vec::with_capacity(d.min(PREALLOC_CAP));
             let mut arities = Vec::with_capacity(d.min(PREALLOC_CAP));
             for _ in 0..d {
@@ -5770,7 +5770,7 @@ fn decode_struct_columns(
     field_names: Vec<String>,
 ) -> Option<RuntimeValue> {
     let k = field_names.len();
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let mut columns: Vec<ListRepr> = Vec::with_capacity(k.min(PREALLOC_CAP));
     for _ in 0..k {
         // Keep each decoded column AS its packed `ListRepr` (no `to_values`):
-- 
2.43.0


From 8a22bd0c576d1abff836b44aa38c3bbb02bc01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:33:17 +0000
Subject: [PATCH 49/60] fix: every decoded text is held to the receiver's text
 limit

---
 .../src/concurrency/marshal.rs                | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index ce6f8a4..29f2d00 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -3244,7 +3244,7 @@ fn write_str(s: &str, out: &mut Vec<u8>) {
 
 #[inline]
 fn read_str(buf: &[u8], pos: &mut usize) -> Option<String> {
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_text(read_uvarint(buf, pos)?)?;
     let bytes = buf.get(*pos..pos.checked_add(n)?)?;
     *pos += n;
     String::from_utf8(bytes.to_vec()).ok()
@@ -4759,6 +4759,13 @@ fn bounded_count(n: u64) -> Option<usize> {
     (n <= receive_limits().max_elements).then_some(n)
 }
 
+/// Reject a decoded string's byte length that exceeds the receiver's `max_string_bytes` budget — the
+/// text twin of [`bounded_count`].
+fn bounded_text(n: u64) -> Option<usize> {
+    let n = n as usize;
+    (n <= receive_limits().max_string_bytes).then_some(n)
+}
+
 fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
     // Bound recursion depth FIRST — a crafted deeply-nested message is refused here (clean `None`),
     // never recursed into a stack overflow. Unwinds via `Drop` as the `?`s propagate back up.
@@ -5196,7 +5203,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let mut ends = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut total: u64 = 0;
             for _ in 0..n {
-                total = total.checked_add(read_uvarint(buf, pos)?)?;
+                total = total.checked_add(bounded_text(read_uvarint(buf, pos)?)? as u64)?;
                 ends.push(u32::try_from(total).ok()?);
             }
             let total = usize::try_from(total).ok()?;
@@ -5212,10 +5219,10 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         // Templated string column: rebuild `prefix + (base + i·stride) + suffix` for `i in 0..n`.
         T_STRINGS_TEMPLATE => {
-            let plen = bounded_count(read_uvarint(buf, pos)?)?;
+            let plen = bounded_text(read_uvarint(buf, pos)?)?;
             let prefix = buf.get(*pos..pos.checked_add(plen)?)?.to_vec();
             *pos += plen;
-            let slen = bounded_count(read_uvarint(buf, pos)?)?;
+            let slen = bounded_text(read_uvarint(buf, pos)?)?;
             let suffix = buf.get(*pos..pos.checked_add(slen)?)?.to_vec();
             *pos += slen;
             let base = unzigzag(read_uvarint(buf, pos)?);
@@ -5228,9 +5235,10 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let mut data = Vec::new();
             let mut ends = Vec::with_capacity(n.min(PREALLOC_CAP));
             for i in 0..n {
-                let num = base.wrapping_add((i as i64).wrapping_mul(stride));
+                let num = base.wrapping_add((i as i64).wrapping_mul(stride)).to_string();
+                bounded_text((plen + num.len() + slen) as u64)?;
                 data.extend_from_slice(&prefix);
-                data.extend_from_slice(num.to_string().as_bytes());
+                data.extend_from_slice(num.as_bytes());
                 data.extend_from_slice(&suffix);
                 ends.push(u32::try_from(data.len()).ok()?);
             }
@@ -5243,15 +5251,15 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let mut ends = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut prev: Vec<u8> = Vec::new();
             for _ in 0..n {
-                let common = bounded_count(read_uvarint(buf, pos)?)?;
-                let suffix_len = bounded_count(read_uvarint(buf, pos)?)?;
+                let common = bounded_text(read_uvarint(buf, pos)?)?;
+                let suffix_len = bounded_text(read_uvarint(buf, pos)?)?;
                 // Can't share more prefix than the previous string has — a corrupt frame is refused.
                 if common > prev.len() {
                     return None;
                 }
                 let suffix = buf.get(*pos..pos.checked_add(suffix_len)?)?;
                 *pos += suffix_len;
-                let mut s = Vec::with_capacity(common.checked_add(suffix_len)?);
+                let mut s = Vec::with_capacity(bounded_text(common.checked_add(suffix_len)? as u64)?);
                 s.extend_from_slice(&prev[..common]);
                 s.extend_from_slice(suffix);
                 data.extend_from_slice(&s);
@@ -5267,17 +5275,18 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         // Affixed string column: rebuild each string as `prefix + middle_i + suffix`.
         T_STRINGS_AFFIX => {
-            let plen = bounded_count(read_uvarint(buf, pos)?)?;
+            let plen = bounded_text(read_uvarint(buf, pos)?)?;
             let prefix = buf.get(*pos..pos.checked_add(plen)?)?.to_vec();
             *pos += plen;
-            let slen = bounded_count(read_uvarint(buf, pos)?)?;
+            let slen = bounded_text(read_uvarint(buf, pos)?)?;
             let suffix = buf.get(*pos..pos.checked_add(slen)?)?.to_vec();
             *pos += slen;
             let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut data: Vec<u8> = Vec::new();
             let mut ends = Vec::with_capacity(n.min(PREALLOC_CAP));
             for _ in 0..n {
-                let mid_len = bounded_count(read_uvarint(buf, pos)?)?;
+                let mid_len = bounded_text(read_uvarint(buf, pos)?)?;
+                bounded_text(plen.checked_add(mid_len)?.checked_add(slen)? as u64)?;
                 let mid = buf.get(*pos..pos.checked_add(mid_len)?)?;
                 *pos += mid_len;
                 data.extend_from_slice(&prefix);
@@ -5297,7 +5306,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let d = bounded_count(read_uvarint(buf, pos)?)?;
             let mut dict: Vec<&[u8]> = Vec::with_capacity(d.min(PREALLOC_CAP));
             for _ in 0..d {
-                let len = read_uvarint(buf, pos)? as usize;
+                let len = bounded_text(read_uvarint(buf, pos)?)?;
                 let s = buf.get(*pos..pos.checked_add(len)?)?;
                 if std::str::from_utf8(s).is_err() {
                     return None;
@@ -5356,6 +5365,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                     return None;
                 }
                 let suffix = read_str(buf, pos)?;
+                bounded_text((common + suffix.len()) as u64)?;
                 let s = format!("{}{}", &prev[..common], suffix);
                 items.push(RuntimeValue::Text(Rc::new(s.clone())));
                 prev = s;
@@ -5398,6 +5408,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                             return None;
                         }
                         let suffix = read_str(buf, pos)?;
+                        bounded_text((common + suffix.len()) as u64)?;
                         let s = format!("{}{}", &prev[..common], suffix);
                         vs.push(RuntimeValue::Text(Rc::new(s.clone())));
                         prev = s;
@@ -5583,6 +5594,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                             let tlen = u32::from_le_bytes(
                                 rows_bytes.get(base.checked_add(4)?..base.checked_add(8)?)?.try_into().ok()?,
                             ) as usize;
+                            bounded_text(tlen as u64)?;
                             data.extend_from_slice(blob.get(toff..toff.checked_add(tlen)?)?);
                             ends.push(data.len() as u32);
                         }
-- 
2.43.0


From de5936ecae394b6ddbfba74d17df7f6871b0a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:28 +0000
Subject: [PATCH 50/60] fix: packed whole-number columns and record views keep
 the receiver's element limit

---
 crates/logicaffeine_base/src/describe.rs             | 12 ++++++------
 .../logicaffeine_compile/src/concurrency/marshal.rs  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/logicaffeine_base/src/describe.rs b/crates/logicaffeine_base/src/describe.rs
index d8924b8..f3a6cee 100644
--- a/crates/logicaffeine_base/src/describe.rs
+++ b/crates/logicaffeine_base/src/describe.rs
@@ -2308,14 +2308,14 @@ pub fn decode_int_column_body(
         }
         // Byte column: read the count, widen each raw byte to an Int.
         T_BYTES => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let raw = buf.get(*pos..pos.checked_add(n)?)?;
             *pos += n;
             raw.iter().map(|&b| b as i64).collect()
         }
         // Delta column: cumulative-sum the zig-zag differences.
         T_INTS_DELTA => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let mut v = Vec::with_capacity(n.min(PREALLOC_CAP));
             if n > 0 {
                 let mut cur = unzigzag(read_uvarint(buf, pos)?);
@@ -2329,7 +2329,7 @@ pub fn decode_int_column_body(
         }
         // Delta-of-delta column: double cumulative sum (the inverse of `dod_encode`).
         T_INTS_DOD => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let mut v = Vec::with_capacity(n.min(PREALLOC_CAP));
             if n > 0 {
                 let first = unzigzag(read_uvarint(buf, pos)?);
@@ -2349,7 +2349,7 @@ pub fn decode_int_column_body(
         }
         // Frame-of-reference column: unpack the bit-packed residuals, add the minimum.
         T_INTS_FOR => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let min = unzigzag(read_uvarint(buf, pos)?);
             let width = *buf.get(*pos)?;
             *pos += 1;
@@ -2378,7 +2378,7 @@ pub fn decode_int_column_body(
             for _ in 0..runs {
                 let val = unzigzag(read_uvarint(buf, pos)?);
                 let len = read_uvarint(buf, pos)? as usize;
-                if v.len().checked_add(len)? > RLE_MAX_TOTAL {
+                if v.len().checked_add(len)? > RLE_MAX_TOTAL.min(max_elements) {
                     return None;
                 }
                 v.resize(v.len() + len, val);
@@ -2392,7 +2392,7 @@ pub fn decode_int_column_body(
             for _ in 0..d {
                 dict.push(unzigzag(read_uvarint(buf, pos)?));
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let iw = *buf.get(*pos)?;
             *pos += 1;
             if iw > 64 {
diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 29f2d00..a0ec855 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -2076,7 +2076,7 @@ impl<'a> WireView<'a> {
         let mut p = 1;
         let type_name = read_str(self.val, &mut p)?;
         let f = read_uvarint(self.val, &mut p)? as usize;
-        let mut field_names = Vec::with_capacity(f);
+        let mut field_names = Vec::with_capacity(f.min(PREALLOC_CAP));
         for _ in 0..f {
             field_names.push(read_str(self.val, &mut p)?);
         }
@@ -2176,7 +2176,7 @@ impl<'a> WireView<'a> {
         let tn_len = read_uvarint(val, &mut p)? as usize; // type_name (skipped)
         p = p.checked_add(tn_len)?;
         let f = read_uvarint(val, &mut p)? as usize;
-        let mut field_names = Vec::with_capacity(f);
+        let mut field_names = Vec::with_capacity(f.min(PREALLOC_CAP));
         for _ in 0..f {
             let nlen = read_uvarint(val, &mut p)? as usize;
             field_names.push(val.get(p..p.checked_add(nlen)?)?);
-- 
2.43.0


From 0bfe1defb67860ae1cb0d7a712cade78850449a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:28 +0000
Subject: [PATCH 51/60] fix: a quantity with an exponent out of range is
 refused instead of crashing the receiver

---
 crates/logicaffeine_compile/src/concurrency/marshal.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index a0ec855..5e84b46 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -4884,8 +4884,12 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             // Dimension: 10 exponent (numerator, denominator) pairs as zig-zag varints.
             let mut exps = [logicaffeine_base::Exp::ZERO; logicaffeine_base::BaseDim::COUNT];
             for slot in exps.iter_mut() {
-                let en = unzigzag(read_uvarint(buf, pos)?) as i32;
-                let ed = unzigzag(read_uvarint(buf, pos)?) as i32;
+                let en = i32::try_from(unzigzag(read_uvarint(buf, pos)?)).ok()?;
+                let ed = i32::try_from(unzigzag(read_uvarint(buf, pos)?)).ok()?;
+                // `i32::MIN` has no negation, so no exponent the encoder writes holds it.
+                if en == i32::MIN || ed == i32::MIN {
+                    return None;
+                }
                 *slot = logicaffeine_base::Exp::new(en, if ed == 0 { 1 } else { ed });
             }
             let dim = logicaffeine_base::Dimension::from_exps(exps);
-- 
2.43.0


From e04bab370153553a03a2bb10e7e61b97dd4915a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:59 +0000
Subject: [PATCH 52/60] fix: a money amount with many decimal places is
 compared and hashed without computing its power of ten

---
 crates/logicaffeine_base/src/money.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/money.rs b/crates/logicaffeine_base/src/money.rs
index a38d4a5..b7e9807 100644
--- a/crates/logicaffeine_base/src/money.rs
+++ b/crates/logicaffeine_base/src/money.rs
@@ -130,7 +130,7 @@ impl Money {
 impl PartialEq for Money {
     /// Value equality: same currency and equal amount (`5 USD == 5.00 USD`, `5 USD ≠ 5 EUR`).
     fn eq(&self, other: &Self) -> bool {
-        self.currency == other.currency && self.amount.to_rational() == other.amount.to_rational()
+        self.currency == other.currency && self.amount == other.amount
     }
 }
 impl Eq for Money {}
@@ -138,7 +138,7 @@ impl Eq for Money {}
 impl Hash for Money {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.currency.hash(state);
-        self.amount.to_rational().hash(state);
+        self.amount.hash(state);
     }
 }
 
-- 
2.43.0


From 621fc9f19197af974008a80d8f13bfe0fca1d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:15 +0000
Subject: [PATCH 53/60] fix: never reuse a document generation in the language
 server

Closing and reopening a document restarted its generation at zero, so a slow
analysis of the earlier opening could replace the analysis of the new text.
---
 crates/logicaffeine_lsp/src/scheduler.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/scheduler.rs b/crates/logicaffeine_lsp/src/scheduler.rs
index 98bf1a3..e48c377 100644
--- a/crates/logicaffeine_lsp/src/scheduler.rs
+++ b/crates/logicaffeine_lsp/src/scheduler.rs
@@ -18,9 +18,11 @@ pub const DEBOUNCE: Duration = Duration::from_millis(150);
 /// The generation guard is the cancellation model: every edit bumps the
 /// generation, and an analysis pass only installs+publishes its result if the
 /// generation it captured is still current when it finishes. Stale results
-/// are dropped on the floor — no locks held, nothing blocks.
+/// are dropped on the floor — no locks held, nothing blocks. Generations are
+/// never reused, so a result for an earlier opening of a document is stale too.
 pub struct Scheduler {
     entries: DashMap<Url, DocEntry>,
+    next_generation: AtomicU64,
 }
 
 struct DocEntry {
@@ -33,18 +35,20 @@ impl Scheduler {
     pub fn new() -> Self {
         Scheduler {
             entries: DashMap::new(),
+            next_generation: AtomicU64::new(0),
         }
     }
 
     /// Register a newly opened document. Returns its starting generation.
     pub fn open(&self, uri: Url, text: String, version: i32) -> u64 {
+        let generation = self.next_generation.fetch_add(1, Ordering::SeqCst);
         let entry = DocEntry {
-            generation: Arc::new(AtomicU64::new(0)),
+            generation: Arc::new(AtomicU64::new(generation)),
             text,
             version,
         };
         self.entries.insert(uri, entry);
-        0
+        generation
     }
 
     /// Apply LSP content changes in order and bump the generation.
@@ -60,7 +64,9 @@ impl Scheduler {
             apply_content_change(&mut entry.text, change.range, &change.text);
         }
         entry.version = version;
-        Some(entry.generation.fetch_add(1, Ordering::SeqCst) + 1)
+        let generation = self.next_generation.fetch_add(1, Ordering::SeqCst);
+        entry.generation.store(generation, Ordering::SeqCst);
+        Some(generation)
     }
 
     /// Snapshot the current text/version if `generation` is still current.
-- 
2.43.0


From 5efe5d0e362c1c63f4d7e29a197f8a6c6e35780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:15 +0000
Subject: [PATCH 54/60] fix: place offsets inside a character at its start

Analysis of a document panicked when a token ended inside a multi-byte
character, and the document kept its old analysis.
---
 crates/logicaffeine_lsp/src/line_index.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/line_index.rs b/crates/logicaffeine_lsp/src/line_index.rs
index a80a1be..87c8704 100644
--- a/crates/logicaffeine_lsp/src/line_index.rs
+++ b/crates/logicaffeine_lsp/src/line_index.rs
@@ -31,7 +31,7 @@ impl LineIndex {
     ///
     /// Returns `(line, character)` where character is a UTF-16 code unit offset.
     pub fn position(&self, byte_offset: usize) -> Position {
-        let byte_offset = byte_offset.min(self.source.len());
+        let byte_offset = self.char_start(byte_offset);
 
         let line = self
             .line_starts
@@ -48,6 +48,15 @@ impl LineIndex {
         }
     }
 
+    /// The start of the character at `byte_offset`, at most the end of the source.
+    fn char_start(&self, byte_offset: usize) -> usize {
+        let mut offset = byte_offset.min(self.source.len());
+        while !self.source.is_char_boundary(offset) {
+            offset -= 1;
+        }
+        offset
+    }
+
     /// Return the byte offset of the start of `line` (0-indexed).
     /// Returns `source.len()` if `line` is out of bounds.
     pub fn line_start_offset(&self, line: usize) -> usize {
@@ -59,8 +68,8 @@ impl LineIndex {
 
     /// Compute the UTF-16 length of a byte range in the source.
     pub fn utf16_length(&self, byte_start: usize, byte_end: usize) -> u32 {
-        let start = byte_start.min(self.source.len());
-        let end = byte_end.min(self.source.len());
+        let start = self.char_start(byte_start);
+        let end = self.char_start(byte_end);
         if start >= end {
             return 0;
         }
-- 
2.43.0


From 6c01910a16aa6be159f642e01d5f29024ec12248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:15 +0000
Subject: [PATCH 55/60] fix: keep editor positions past the end of a line on
 that line

Such a position was taken for the start of the next line, so an edit there
swallowed the line ending and the server text drifted from the editor text.
---
 crates/logicaffeine_lsp/src/line_index.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_lsp/src/line_index.rs b/crates/logicaffeine_lsp/src/line_index.rs
index 87c8704..9da82ed 100644
--- a/crates/logicaffeine_lsp/src/line_index.rs
+++ b/crates/logicaffeine_lsp/src/line_index.rs
@@ -90,7 +90,13 @@ impl LineIndex {
             .copied()
             .unwrap_or(self.source.len());
 
+        // A character past the end of the line means the end of the line, before
+        // its line ending.
         let line_text = &self.source[line_start..line_end];
+        let line_text = match line_text.strip_suffix('\n') {
+            Some(line) => line.strip_suffix('\r').unwrap_or(line),
+            None => line_text,
+        };
         let mut utf16_offset = 0u32;
         let target = position.character;
 
@@ -101,7 +107,7 @@ impl LineIndex {
             utf16_offset += ch.len_utf16() as u32;
         }
 
-        line_end
+        line_start + line_text.len()
     }
 }
 
-- 
2.43.0


From 2d2a1e308f96f702bca202c3bb653a9b2e3a62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:15 +0000
Subject: [PATCH 56/60] fix: accept words whose letters take more than one byte
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Word endings and capital letters were cut by bytes, so words such as "ßed" or
"αer" ended the process.
---
 crates/logicaffeine_language/src/lexer.rs         | 12 ++++++------
 crates/logicaffeine_language/src/lexicon.rs       | 12 ++++++------
 crates/logicaffeine_language/src/parser/clause.rs |  6 +++---
 crates/logicaffeine_language/src/parser/mod.rs    |  8 ++++----
 crates/logicaffeine_language/src/parser/verb.rs   |  2 +-
 crates/logicaffeine_language/src/transpile.rs     |  6 +++---
 6 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/crates/logicaffeine_language/src/lexer.rs b/crates/logicaffeine_language/src/lexer.rs
index 9551135..1b3f829 100644
--- a/crates/logicaffeine_language/src/lexer.rs
+++ b/crates/logicaffeine_language/src/lexer.rs
@@ -3354,12 +3354,12 @@ impl<'a> Lexer<'a> {
 
         let base = &word[..word.len() - 3];
 
-        if base.len() >= 2 {
-            let chars: Vec<char> = base.chars().collect();
+        let chars: Vec<char> = base.chars().collect();
+        if chars.len() >= 2 {
             let last = chars[chars.len() - 1];
             let second_last = chars[chars.len() - 2];
             if last == second_last && !"aeiou".contains(last) {
-                let stem = &base[..base.len() - 1];
+                let stem = &base[..base.len() - last.len_utf8()];
                 if lexicon::is_gradable_adjective(stem) {
                     return Some(Self::capitalize(stem));
                 }
@@ -3387,12 +3387,12 @@ impl<'a> Lexer<'a> {
 
         let base = &word[..word.len() - 2];
 
-        if base.len() >= 2 {
-            let chars: Vec<char> = base.chars().collect();
+        let chars: Vec<char> = base.chars().collect();
+        if chars.len() >= 2 {
             let last = chars[chars.len() - 1];
             let second_last = chars[chars.len() - 2];
             if last == second_last && !"aeiou".contains(last) {
-                let stem = &base[..base.len() - 1];
+                let stem = &base[..base.len() - last.len_utf8()];
                 if lexicon::is_gradable_adjective(stem) {
                     return Some(Self::capitalize(stem));
                 }
diff --git a/crates/logicaffeine_language/src/lexicon.rs b/crates/logicaffeine_language/src/lexicon.rs
index 2937f7b..1977ae3 100644
--- a/crates/logicaffeine_language/src/lexicon.rs
+++ b/crates/logicaffeine_language/src/lexicon.rs
@@ -134,13 +134,13 @@ impl Lexicon {
     fn strip_ing(&self, word: &str) -> String {
         let base = &word[..word.len() - 3];
 
-        if base.len() >= 2 {
-            let chars: Vec<char> = base.chars().collect();
+        let chars: Vec<char> = base.chars().collect();
+        if chars.len() >= 2 {
             let last = chars[chars.len() - 1];
             let second_last = chars[chars.len() - 2];
 
             if last == second_last && !"aeiou".contains(last) {
-                return base[..base.len() - 1].to_string();
+                return base[..base.len() - last.len_utf8()].to_string();
             }
         }
 
@@ -165,8 +165,8 @@ impl Lexicon {
             return format!("{}y", &base[..base.len() - 1]);
         }
 
-        if base.len() >= 2 {
-            let chars: Vec<char> = base.chars().collect();
+        let chars: Vec<char> = base.chars().collect();
+        if chars.len() >= 2 {
             let last = chars[chars.len() - 1];
             let second_last = chars[chars.len() - 2];
 
@@ -179,7 +179,7 @@ impl Lexicon {
                     return base.to_string();
                 }
                 // Otherwise strip the doubled consonant (handles "stopped" → "stop")
-                return base[..base.len() - 1].to_string();
+                return base[..base.len() - last.len_utf8()].to_string();
             }
 
             // Consonant clusters that typically come from silent-e verbs:
diff --git a/crates/logicaffeine_language/src/parser/clause.rs b/crates/logicaffeine_language/src/parser/clause.rs
index 23ee651..3175585 100644
--- a/crates/logicaffeine_language/src/parser/clause.rs
+++ b/crates/logicaffeine_language/src/parser/clause.rs
@@ -449,7 +449,7 @@ impl<'a, 'ctx, 'int> ClauseParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
             let cap = lx
                 .chars()
                 .next()
-                .map(|c| c.to_uppercase().collect::<String>() + &lx[1..])
+                .map(|c| c.to_uppercase().collect::<String>() + &lx[c.len_utf8()..])
                 .unwrap_or(lx);
             self.interner.intern(&cap)
         } else {
@@ -524,7 +524,7 @@ impl<'a, 'ctx, 'int> ClauseParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
                     "you" => self.interner.intern("Addressee"),
                     "i" | "me" => self.interner.intern("Speaker"),
                     other => self.interner.intern(
-                        &(other.chars().next().map(|c| c.to_uppercase().collect::<String>() + &other[1..]).unwrap_or_default()),
+                        &(other.chars().next().map(|c| c.to_uppercase().collect::<String>() + &other[c.len_utf8()..]).unwrap_or_default()),
                     ),
                 }
             } else {
@@ -546,7 +546,7 @@ impl<'a, 'ctx, 'int> ClauseParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
             let vname = vlex
                 .chars()
                 .next()
-                .map(|c| c.to_uppercase().collect::<String>() + &vlex[1..])
+                .map(|c| c.to_uppercase().collect::<String>() + &vlex[c.len_utf8()..])
                 .unwrap_or(vlex);
             let verb_sym = self.interner.intern(&vname);
             self.advance(); // consume the wish verb
diff --git a/crates/logicaffeine_language/src/parser/mod.rs b/crates/logicaffeine_language/src/parser/mod.rs
index 9d0a7f7..71d496b 100644
--- a/crates/logicaffeine_language/src/parser/mod.rs
+++ b/crates/logicaffeine_language/src/parser/mod.rs
@@ -9913,7 +9913,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                             let verb_name = lexeme
                                 .chars()
                                 .next()
-                                .map(|c| c.to_uppercase().collect::<String>() + &lexeme[1..])
+                                .map(|c| c.to_uppercase().collect::<String>() + &lexeme[c.len_utf8()..])
                                 .unwrap_or(lexeme);
                             let infinitive_verb = self.interner.intern(&verb_name);
                             self.advance(); // consume the complement verb
@@ -13291,7 +13291,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                                 let cap = lx
                                     .chars()
                                     .next()
-                                    .map(|c| c.to_uppercase().collect::<String>() + &lx[1..])
+                                    .map(|c| c.to_uppercase().collect::<String>() + &lx[c.len_utf8()..])
                                     .unwrap_or(lx);
                                 Some(self.interner.intern(&cap))
                             }
@@ -13301,7 +13301,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                             let vname = vlex
                                 .chars()
                                 .next()
-                                .map(|c| c.to_uppercase().collect::<String>() + &vlex[1..])
+                                .map(|c| c.to_uppercase().collect::<String>() + &vlex[c.len_utf8()..])
                                 .unwrap_or(vlex);
                             let inner_verb = self.interner.intern(&vname);
                             self.current = vp_i + 1; // consume through the VP head
@@ -15142,7 +15142,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                         let cap = other
                             .chars()
                             .next()
-                            .map(|c| c.to_uppercase().collect::<String>() + &other[1..])
+                            .map(|c| c.to_uppercase().collect::<String>() + &other[c.len_utf8()..])
                             .unwrap_or_default();
                         self.interner.intern(&cap)
                     }
diff --git a/crates/logicaffeine_language/src/parser/verb.rs b/crates/logicaffeine_language/src/parser/verb.rs
index 9d3893a..93a0951 100644
--- a/crates/logicaffeine_language/src/parser/verb.rs
+++ b/crates/logicaffeine_language/src/parser/verb.rs
@@ -3309,7 +3309,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                                 let cap = lx
                                     .chars()
                                     .next()
-                                    .map(|c| c.to_uppercase().collect::<String>() + &lx[1..])
+                                    .map(|c| c.to_uppercase().collect::<String>() + &lx[c.len_utf8()..])
                                     .unwrap_or(lx);
                                 Some(self.interner.intern(&cap))
                             }
diff --git a/crates/logicaffeine_language/src/transpile.rs b/crates/logicaffeine_language/src/transpile.rs
index 2e4cbd7..e915a02 100644
--- a/crates/logicaffeine_language/src/transpile.rs
+++ b/crates/logicaffeine_language/src/transpile.rs
@@ -246,7 +246,7 @@ impl<'a> Term<'a> {
                 // Use full word for intensional terms, not abbreviated symbol
                 let word = interner.resolve(*predicate);
                 let capitalized = word.chars().next()
-                    .map(|c| c.to_uppercase().collect::<String>() + &word[1..])
+                    .map(|c| c.to_uppercase().collect::<String>() + &word[c.len_utf8()..])
                     .unwrap_or_default();
                 write!(w, "^{}", capitalized)
             }
@@ -254,7 +254,7 @@ impl<'a> Term<'a> {
                 // Kind terms render with the full word, like intensions: ^Tooth.
                 let word = interner.resolve(*kind);
                 let capitalized = word.chars().next()
-                    .map(|c| c.to_uppercase().collect::<String>() + &word[1..])
+                    .map(|c| c.to_uppercase().collect::<String>() + &word[c.len_utf8()..])
                     .unwrap_or_default();
                 write!(w, "^{}", capitalized)
             }
@@ -770,7 +770,7 @@ impl<'a> LogicExpr<'a> {
                     let mut o = String::new();
                     object.write_to(&mut o, registry, interner)?;
                     let cap = adj.chars().next()
-                        .map(|c| c.to_uppercase().collect::<String>() + &adj[1..])
+                        .map(|c| c.to_uppercase().collect::<String>() + &adj[c.len_utf8()..])
                         .unwrap_or_default();
                     return write!(w, "max{{d:{}({},d)}} {} max{{d:{}({},d)}}", cap, s, rel, cap, o);
                 }
-- 
2.43.0


From 4d76ccd570cea8ae8263b4bed21e911ac5505d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:16 +0000
Subject: [PATCH 57/60] fix: refuse an inverted conditional without a subject

"Should holds, then ..." was rewritten into itself until the stack ran out.
---
 crates/logicaffeine_language/src/parser/clause.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_language/src/parser/clause.rs b/crates/logicaffeine_language/src/parser/clause.rs
index 3175585..ff9cc0e 100644
--- a/crates/logicaffeine_language/src/parser/clause.rs
+++ b/crates/logicaffeine_language/src/parser/clause.rs
@@ -816,7 +816,8 @@ impl<'a, 'ctx, 'int> ClauseParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
             i > start && i < comma_at && Self::is_content_word_type(&self.tokens[i].kind);
 
         let insert_at = match first_verb {
-            Some(v) => v,
+            Some(v) if v > start => v,
+            Some(_) => return Ok(None), // no subject before the verb — the aux has nowhere to go
             None if head_is_nominal || head_after_determiner => i + 1,
             None => return Ok(None), // no subject NP / no predicate — not a conditional
         };
-- 
2.43.0


From 2fa4ce55c6be08410fec7adb678646494fdfb332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:16 +0000
Subject: [PATCH 58/60] fix: name the symbol of a word that has no stem

"ing" reduces to nothing and ended the process.
---
 crates/logicaffeine_language/src/registry.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_language/src/registry.rs b/crates/logicaffeine_language/src/registry.rs
index 3fe3083..3599b1f 100644
--- a/crates/logicaffeine_language/src/registry.rs
+++ b/crates/logicaffeine_language/src/registry.rs
@@ -68,10 +68,9 @@ impl SymbolRegistry {
         let first = normalized
             .chars()
             .next()
-            .unwrap()
-            .to_uppercase()
-            .next()
-            .unwrap();
+            .and_then(|c| c.to_uppercase().next())
+            // A word can reduce to nothing ("ing" has no stem).
+            .unwrap_or('X');
 
         let counter = self.counters.entry(first).or_insert(0);
         *counter += 1;
-- 
2.43.0


From 3ecdde3e2add690bc549eaab34d34c1c69d207dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:16 +0000
Subject: [PATCH 59/60] fix: allow looking back from the first token

---
 crates/logicaffeine_language/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_language/src/parser/mod.rs b/crates/logicaffeine_language/src/parser/mod.rs
index 71d496b..6a1d082 100644
--- a/crates/logicaffeine_language/src/parser/mod.rs
+++ b/crates/logicaffeine_language/src/parser/mod.rs
@@ -15670,7 +15670,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
     }
 
     fn previous(&self) -> &Token {
-        &self.tokens[self.current - 1]
+        &self.tokens[self.current.saturating_sub(1)]
     }
 
     fn current_span(&self) -> crate::token::Span {
-- 
2.43.0


From f42ffc78498c7d8236d5e8088bdfc1afcc558dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:16 +0000
Subject: [PATCH 60/60] fix: report a missing verb as a parse error

Sentences with another word where a verb is needed ended the process.
---
 .../src/parser/clause.rs                      |  4 +-
 .../logicaffeine_language/src/parser/mod.rs   | 68 +++++++++----------
 .../logicaffeine_language/src/parser/modal.rs |  2 +-
 .../src/parser/pragmatics.rs                  |  8 +--
 .../src/parser/quantifier.rs                  | 18 ++---
 .../src/parser/question.rs                    |  8 +--
 .../logicaffeine_language/src/parser/verb.rs  | 18 ++---
 7 files changed, 61 insertions(+), 65 deletions(-)

diff --git a/crates/logicaffeine_language/src/parser/clause.rs b/crates/logicaffeine_language/src/parser/clause.rs
index ff9cc0e..334c345 100644
--- a/crates/logicaffeine_language/src/parser/clause.rs
+++ b/crates/logicaffeine_language/src/parser/clause.rs
@@ -2794,7 +2794,7 @@ impl<'a, 'ctx, 'int> ClauseParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
             }
 
             if self.check_verb() {
-                let verb = self.consume_verb();
+                let verb = self.consume_verb()?;
 
                 // Check for reflexive object: "shave themselves"
                 let roles = if self.check(&TokenType::Reflexive) {
@@ -2847,7 +2847,7 @@ impl<'a, 'ctx, 'int> ClauseParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
             };
 
             if self.check_verb() {
-                let verb = self.consume_verb();
+                let verb = self.consume_verb()?;
 
                 // A STRANDED preposition ("the animal Eva works WITH", "the case Bob
                 // paid FOR") makes the GAP the object of that preposition, not the
diff --git a/crates/logicaffeine_language/src/parser/mod.rs b/crates/logicaffeine_language/src/parser/mod.rs
index 6a1d082..a5eebc8 100644
--- a/crates/logicaffeine_language/src/parser/mod.rs
+++ b/crates/logicaffeine_language/src/parser/mod.rs
@@ -1064,7 +1064,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
         if self.check_verb() {
             // "who runs" pattern
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
             let body = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: verb,
                 args: self.ctx.terms.alloc_slice([var_term]),
@@ -1077,7 +1077,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
             // "what John ate" pattern
             let subject = self.parse_noun_phrase(true)?;
             if self.check_verb() {
-                let verb = self.consume_verb();
+                let verb = self.consume_verb()?;
                 let body = self.ctx.exprs.alloc(LogicExpr::Predicate {
                     name: verb,
                     args: self.ctx.terms.alloc_slice([
@@ -9253,7 +9253,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                 world: None,
             }));
         }
-        let (red_verb, _t, _a, _c) = self.consume_verb_with_metadata();
+        let (red_verb, _t, _a, _c) = self.consume_verb_with_metadata()?;
         preds.push(self.ctx.exprs.alloc(LogicExpr::Predicate {
             name: red_verb,
             args: self.ctx.terms.alloc_slice([term]),
@@ -10120,7 +10120,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                         };
 
                         if p.check_verb() {
-                            let verb = p.consume_verb();
+                            let verb = p.consume_verb()?;
                             let predicate = p.ctx.exprs.alloc(LogicExpr::Predicate {
                                 name: verb,
                                 args: p.ctx.terms.alloc_slice([
@@ -10154,7 +10154,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                 let topic_attempt = self.try_parse(|p| {
                     let real_subject = p.parse_noun_phrase(true)?;
                     if p.check_verb() {
-                        let verb = p.consume_verb();
+                        let verb = p.consume_verb()?;
                         let predicate = p.ctx.exprs.alloc(LogicExpr::Predicate {
                             name: verb,
                             args: p.ctx.terms.alloc_slice([
@@ -10242,7 +10242,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                 }));
             }
             if self.check_verb() {
-                let (verb, verb_time, _, _) = self.consume_verb_with_metadata();
+                let (verb, verb_time, _, _) = self.consume_verb_with_metadata()?;
                 let var_term = Term::Variable(var_name);
 
                 // A bare verb keeps the simple event; material after it
@@ -10467,7 +10467,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                         world: None,
                     }));
                 }
-                let (red_verb, _t, _a, _c) = p.consume_verb_with_metadata();
+                let (red_verb, _t, _a, _c) = p.consume_verb_with_metadata()?;
                 preds.push(p.ctx.exprs.alloc(LogicExpr::Predicate {
                     name: red_verb,
                     args: p.ctx.terms.alloc_slice([Term::Variable(placeholder)]),
@@ -11101,7 +11101,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
             };
 
             if !prefer_adjective && self.check_verb() {
-                let (verb, _verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata();
+                let (verb, _verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata()?;
 
                 // Stative verbs cannot be progressive
                 if verb_class.is_stative() && verb_aspect == Aspect::Progressive {
@@ -12120,7 +12120,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                                 crate::lexicon::VerbClass::Activity,
                             )
                         } else {
-                            self.consume_verb_with_metadata()
+                            self.consume_verb_with_metadata()?
                         };
                     let subject_term = self.noun_phrase_to_term(&subject);
 
@@ -12383,7 +12383,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
             self.advance(); // do/does
             self.advance(); // not
             let var_name = self.next_var_name();
-            let (verb, _t, _a, _) = self.consume_verb_with_metadata();
+            let (verb, _t, _a, _) = self.consume_verb_with_metadata()?;
             let type_pred = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: subject.noun,
                 args: self.ctx.terms.alloc_slice([Term::Variable(var_name)]),
@@ -12420,7 +12420,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
         if is_bare_plural {
             let var_name = self.next_var_name();
-            let (verb, verb_time, verb_aspect, _) = self.consume_verb_with_metadata();
+            let (verb, verb_time, verb_aspect, _) = self.consume_verb_with_metadata()?;
 
             let type_pred = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: subject.noun,
@@ -12505,7 +12505,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
             if self.check_verb() {
                 let (verb, verb_time, verb_aspect, verb_class) =
-                    self.consume_verb_with_metadata();
+                    self.consume_verb_with_metadata()?;
                 let verb_lemma = self.interner.resolve(verb).to_lowercase();
 
                 // Check for embedded wh-clause with negation: "I don't know who"
@@ -12844,7 +12844,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
             // Try parsing as reduced relative: first verb is modifier, look for main verb after
             if let Some(garden_path_result) = self.try_parse(|p| {
-                let (modifier_verb, _modifier_time, _, _) = p.consume_verb_with_metadata();
+                let (modifier_verb, _modifier_time, _, _) = p.consume_verb_with_metadata()?;
 
                 // Collect any PP modifiers on the reduced relative
                 let mut pp_mods: Vec<&'a LogicExpr<'a>> = Vec::new();
@@ -12873,7 +12873,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                     });
                 }
 
-                let (main_verb, main_time, _, _) = p.consume_verb_with_metadata();
+                let (main_verb, main_time, _, _) = p.consume_verb_with_metadata()?;
 
                 // Adjective complement of the main verb ("proved FALSE") is
                 // its predicated result.
@@ -13026,7 +13026,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
         // Handle "never" temporal negation: "John never runs"
         if self.check(&TokenType::Never) {
             self.advance();
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
             let subject_term = self.noun_phrase_to_term(&subject);
 
             // Optional object: quantified ("two requests") raises past the
@@ -13135,7 +13135,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
         }
 
         if self.check_verb() {
-            let (mut verb, verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata();
+            let (mut verb, verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata()?;
 
             // Check for verb sort violation (metaphor detection)
             let subject_sort = lexicon::lookup_sort(self.interner.resolve(subject.noun));
@@ -15419,27 +15419,23 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
         false
     }
 
-    fn consume_verb(&mut self) -> Symbol {
-        let t = self.advance().clone();
-        match t.kind {
-            TokenType::Verb { lemma, .. } => lemma,
-            TokenType::Ambiguous { primary, .. } => match *primary {
-                TokenType::Verb { lemma, .. } => lemma,
-                _ => panic!("Expected verb in Ambiguous primary, got {:?}", primary),
-            },
-            _ => panic!("Expected verb, got {:?}", t.kind),
-        }
+    fn consume_verb(&mut self) -> ParseResult<Symbol> {
+        let (lemma, _, _, _) = self.consume_verb_with_metadata()?;
+        Ok(lemma)
     }
 
-    fn consume_verb_with_metadata(&mut self) -> (Symbol, Time, Aspect, VerbClass) {
+    fn consume_verb_with_metadata(&mut self) -> ParseResult<(Symbol, Time, Aspect, VerbClass)> {
         let t = self.advance().clone();
-        match t.kind {
-            TokenType::Verb { lemma, time, aspect, class } => (lemma, time, aspect, class),
-            TokenType::Ambiguous { primary, .. } => match *primary {
-                TokenType::Verb { lemma, time, aspect, class } => (lemma, time, aspect, class),
-                _ => panic!("Expected verb in Ambiguous primary, got {:?}", primary),
-            },
-            _ => panic!("Expected verb, got {:?}", t.kind),
+        let kind = match t.kind {
+            TokenType::Ambiguous { primary, .. } => *primary,
+            kind => kind,
+        };
+        match kind {
+            TokenType::Verb { lemma, time, aspect, class } => Ok((lemma, time, aspect, class)),
+            found => Err(ParseError {
+                kind: ParseErrorKind::ExpectedVerb { found },
+                span: t.span,
+            }),
         }
     }
 
@@ -15509,7 +15505,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
         self.negative_depth += 1;
 
-        let verb = self.consume_verb();
+        let verb = self.consume_verb()?;
 
         if self.check_npi_object() {
             let obj_npi_token = self.advance().kind.clone();
@@ -15605,7 +15601,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
             self.negative_depth += 1;
         }
 
-        let verb = self.consume_verb();
+        let verb = self.consume_verb()?;
         let verb_pred = self.ctx.exprs.alloc(LogicExpr::Predicate {
             name: verb,
             args: self.ctx.terms.alloc_slice([Term::Constant(subject.noun)]),
diff --git a/crates/logicaffeine_language/src/parser/modal.rs b/crates/logicaffeine_language/src/parser/modal.rs
index 0e4d6a9..d8349e2 100644
--- a/crates/logicaffeine_language/src/parser/modal.rs
+++ b/crates/logicaffeine_language/src/parser/modal.rs
@@ -243,7 +243,7 @@ impl<'a, 'ctx, 'int> ModalParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int> {
         }
 
         let verb = if self.check_verb() {
-            self.consume_verb()
+            self.consume_verb()?
         } else if self.check_content_word() {
             self.consume_content_word()?
         } else {
diff --git a/crates/logicaffeine_language/src/parser/pragmatics.rs b/crates/logicaffeine_language/src/parser/pragmatics.rs
index 3611f73..4ba16e4 100644
--- a/crates/logicaffeine_language/src/parser/pragmatics.rs
+++ b/crates/logicaffeine_language/src/parser/pragmatics.rs
@@ -264,7 +264,7 @@ impl<'a, 'ctx, 'int> PragmaticsParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
             });
             (adj_pred, copula_time)
         } else {
-            let (verb, verb_time, _, _) = self.consume_verb_with_metadata();
+            let (verb, verb_time, _, _) = self.consume_verb_with_metadata()?;
             let verb_pred = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: verb,
                 args: self.ctx.terms.alloc_slice([Term::Variable(var)]),
@@ -325,7 +325,7 @@ impl<'a, 'ctx, 'int> PragmaticsParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
 
         let unknown = self.interner.intern("?");
         let complement_verb = if self.check_verb() {
-            Some(self.consume_verb())
+            Some(self.consume_verb()?)
         } else {
             None
         };
@@ -444,7 +444,7 @@ impl<'a, 'ctx, 'int> PragmaticsParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
         subject: &NounPhrase<'a>,
     ) -> ParseResult<&'a LogicExpr<'a>> {
         if self.check_verb() {
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
 
             // Check for focused object: "eats only rice"
             if self.check_focus() {
@@ -571,7 +571,7 @@ impl<'a, 'ctx, 'int> PragmaticsParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
             return Ok(self.ctx.exprs.alloc(LogicExpr::Scopal { operator, body }));
         }
 
-        let (verb, verb_time, _verb_aspect, _) = self.consume_verb_with_metadata();
+        let (verb, verb_time, _verb_aspect, _) = self.consume_verb_with_metadata()?;
 
         let predicate = self.ctx.exprs.alloc(LogicExpr::Predicate {
             name: verb,
diff --git a/crates/logicaffeine_language/src/parser/quantifier.rs b/crates/logicaffeine_language/src/parser/quantifier.rs
index 20e3f19..f91cca3 100644
--- a/crates/logicaffeine_language/src/parser/quantifier.rs
+++ b/crates/logicaffeine_language/src/parser/quantifier.rs
@@ -641,7 +641,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
             }
 
             if self.check_verb() {
-                let verb = self.consume_verb();
+                let verb = self.consume_verb()?;
 
                 // Passive auxiliary "will/would BE used": the copula `be`/`been` is
                 // followed by a past-participle verb that is the real predicate — its
@@ -651,7 +651,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
                 let obj_term = if matches!(verb_lower.as_str(), "be" | "been")
                     && self.check_verb()
                 {
-                    Some(Term::Constant(self.consume_verb()))
+                    Some(Term::Constant(self.consume_verb()?))
                 } else {
                     None
                 };
@@ -749,7 +749,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
             };
 
             let complement = if self.check_verb() {
-                let verb = self.consume_verb();
+                let verb = self.consume_verb()?;
                 let modifiers = self.collect_adverbs();
                 self.build_verb_neo_event(verb, var_name, None, modifiers)
             } else {
@@ -801,7 +801,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
         }
 
         if self.check_verb() {
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
             let mut args = vec![Term::Variable(var_name)];
 
             if self.check_pronoun() {
@@ -1208,7 +1208,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
             self.advance(); // consume "does"/"do"
             let negative = self.match_token(&[TokenType::Not]);
             // The verb after "does not" becomes the predicate
-            let verb_sym = self.consume_verb();
+            let verb_sym = self.consume_verb()?;
             let predicate_expr = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: verb_sym,
                 args: self.ctx.terms.alloc_slice([Term::Variable(var_name)]),
@@ -1644,7 +1644,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
 
     fn parse_verb_phrase_for_restriction(&mut self, var_name: Symbol) -> ParseResult<&'a LogicExpr<'a>> {
         let var_term = Term::Variable(var_name);
-        let verb = self.consume_verb();
+        let verb = self.consume_verb()?;
         let verb_str_owned = self.interner.resolve(verb).to_string();
 
         // Check EARLY if verb is lexically negative (e.g., "lacks" -> "Have" with negation)
@@ -1659,7 +1659,7 @@ impl<'a, 'ctx, 'int> QuantifierParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int
         if Lexer::is_raising_verb(&verb_str_owned) && self.check_to() {
             self.advance();
             if self.check_verb() {
-                let inf_verb = self.consume_verb();
+                let inf_verb = self.consume_verb()?;
                 let inf_verb_str = self.interner.resolve(inf_verb).to_lowercase();
 
                 if inf_verb_str == "be" && self.check_content_word() {
@@ -3323,7 +3323,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                 Some(TokenType::Reciprocal)
             )
         {
-            let (verb, recip_time, _, _) = self.consume_verb_with_metadata();
+            let (verb, recip_time, _, _) = self.consume_verb_with_metadata()?;
             self.advance(); // the reciprocal
             let other_var = self.next_var_name();
             let other_restriction = self.rename_var_in_expr(restriction, var_name, other_var);
@@ -3388,7 +3388,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                         Some(if copula_past { Time::Past } else { Time::None });
                 } else {
                     self.advance(); // copula
-                    let (verb, _, _, _) = self.consume_verb_with_metadata();
+                    let (verb, _, _, _) = self.consume_verb_with_metadata()?;
                     let mut modifiers = if copula_past {
                         vec![self.interner.intern("Past")]
                     } else {
diff --git a/crates/logicaffeine_language/src/parser/question.rs b/crates/logicaffeine_language/src/parser/question.rs
index b035ad2..53b9cee 100644
--- a/crates/logicaffeine_language/src/parser/question.rs
+++ b/crates/logicaffeine_language/src/parser/question.rs
@@ -56,7 +56,7 @@ impl<'a, 'ctx, 'int> QuestionParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
             }
 
             let subject = self.parse_noun_phrase(true)?;
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
 
             let mut args = vec![Term::Constant(subject.noun)];
             if self.check_content_word() || self.check_article() {
@@ -124,7 +124,7 @@ impl<'a, 'ctx, 'int> QuestionParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
         }
 
         if self.check_verb() {
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
             let mut args = vec![var_term];
 
             if self.check_content_word() {
@@ -146,7 +146,7 @@ impl<'a, 'ctx, 'int> QuestionParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
         if self.check(&TokenType::Does) || self.check(&TokenType::Do) {
             self.advance();
             let subject = self.parse_noun_phrase(true)?;
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
 
             let body = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: verb,
@@ -232,7 +232,7 @@ impl<'a, 'ctx, 'int> QuestionParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
 
         if is_copula {
             let body = if self.check_verb() {
-                let (verb, _, verb_aspect, _) = self.consume_verb_with_metadata();
+                let (verb, _, verb_aspect, _) = self.consume_verb_with_metadata()?;
                 let predicate = self.ctx.exprs.alloc(LogicExpr::Predicate {
                     name: verb,
                     args: self.ctx.terms.alloc_slice([Term::Constant(subject_symbol)]),
diff --git a/crates/logicaffeine_language/src/parser/verb.rs b/crates/logicaffeine_language/src/parser/verb.rs
index 93a0951..a0224fa 100644
--- a/crates/logicaffeine_language/src/parser/verb.rs
+++ b/crates/logicaffeine_language/src/parser/verb.rs
@@ -1846,7 +1846,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
         if self.check(&TokenType::Never) {
             self.advance();
-            let verb = self.consume_verb();
+            let verb = self.consume_verb()?;
             let verb_pred = self.ctx.exprs.alloc(LogicExpr::Predicate {
                 name: verb,
                 args: self.ctx.terms.alloc_slice([subject_term]),
@@ -1899,7 +1899,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
             if self.check_verb() {
                 let (verb, verb_time, verb_aspect, verb_class) =
-                    self.consume_verb_with_metadata();
+                    self.consume_verb_with_metadata()?;
 
                 // Check for embedded wh-clause with sluicing: "I don't know who"
                 if self.check_wh_word() {
@@ -2041,7 +2041,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                                 crate::lexicon::VerbClass::Activity,
                             )
                         } else {
-                            self.consume_verb_with_metadata()
+                            self.consume_verb_with_metadata()?
                         };
 
                     if self.check_quantifier() {
@@ -2257,7 +2257,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
             }
 
             if self.check_verb() {
-                let (verb, _verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata();
+                let (verb, _verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata()?;
 
                 // Stative verbs cannot be progressive
                 if verb_class.is_stative() && verb_aspect == Aspect::Progressive {
@@ -2842,7 +2842,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
         as_variable: bool,
     ) -> ParseResult<&'a LogicExpr<'a>> {
         if self.check_verb() {
-            let (verb, verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata();
+            let (verb, verb_time, verb_aspect, verb_class) = self.consume_verb_with_metadata()?;
             self.build_verb_vp(
                 subject_symbol,
                 subject_term,
@@ -4804,7 +4804,7 @@ impl<'a, 'ctx, 'int> LogicVerbParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
 
         // Coordinated subjects registered in DRS via introduce_referent
 
-        let (verb, verb_time, _verb_aspect, _) = self.consume_verb_with_metadata();
+        let (verb, verb_time, _verb_aspect, _) = self.consume_verb_with_metadata()?;
 
         // Check for reciprocal: "John and Mary kicked each other"
         if self.check(&TokenType::Reciprocal) {
@@ -5088,7 +5088,7 @@ impl<'a, 'ctx, 'int> LogicVerbParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
                 }));
             }
 
-            let inf_verb = self.consume_verb();
+            let inf_verb = self.consume_verb()?;
 
             let embedded = if self.is_control_verb(inf_verb) {
                 let raised_np = NounPhrase {
@@ -5172,11 +5172,11 @@ impl<'a, 'ctx, 'int> LogicVerbParsing<'a, 'ctx, 'int> for Parser<'a, 'ctx, 'int>
             }));
         }
 
-        let inf_verb = self.consume_verb();
+        let inf_verb = self.consume_verb()?;
         let inf_verb_str = self.interner.resolve(inf_verb).to_lowercase();
 
         let infinitive = if inf_verb_str == "be" && self.check_verb() {
-            let passive_verb = self.consume_verb();
+            let passive_verb = self.consume_verb()?;
             // An agent by-phrase fills the first argument slot, matching the
             // finite passive ("was seen by the people" → See(People, s)).
             let mut passive_args = vec![Term::Constant(pro_controller_sym)];
-- 
2.43.0

