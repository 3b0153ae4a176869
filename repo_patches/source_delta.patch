From 1516f64e1a8a96196ac91bc20a0a3872d8d0ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 01/35] fix: malformed key-value entry with a huge length must
 not panic

bincode::deserialize_from trusts the length prefix found in the data and allocates that much, which
panics (capacity overflow) or aborts on a corrupted entry. Deserializing from the slice bounds every
length by the data that is actually there.
---
 bd-key-value/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-key-value/src/lib.rs b/bd-key-value/src/lib.rs
index 56c0ef3..9a61535 100644
--- a/bd-key-value/src/lib.rs
+++ b/bd-key-value/src/lib.rs
@@ -114,7 +114,7 @@ impl Store {
         let result = base64::engine::general_purpose::STANDARD.decode(base64);
         Ok(result.map_or_else(
           |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
-          |bytes| match bincode::deserialize_from::<_, T>(&bytes[..]) {
+          |bytes| match bincode::deserialize::<T>(&bytes) {
             Ok(model) => Ok(Some(model)),
             Err(e) => anyhow::bail!("failed to deserialize model: {:?}", e),
           },
-- 
2.43.0


From e37c06f44290ddfd91469742daa89ac972e451e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 02/35] fix: corrupted workflows state file must not panic on
 load

A corrupted length prefix made bincode::deserialize_from allocate that much, which panics or aborts
at start-up instead of discarding the file.
---
 bd-workflows/src/engine.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..6c3caaf 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -46,7 +46,7 @@ use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
 use std::collections::{BTreeSet, HashMap};
 use std::fs::File;
-use std::io::{BufReader, BufWriter, Write};
+use std::io::{BufWriter, Write};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::sync::mpsc::{Receiver, Sender};
@@ -973,10 +973,9 @@ impl StateStore {
   }
 
   pub(self) fn load_state(&self) -> anyhow::Result<WorkflowsState> {
-    let file = File::open(self.state_path.as_path())?;
-    // Wrap file in buffer to deserialize efficiently in place
-    let buf_reader = BufReader::new(file);
-    Ok(bincode::deserialize_from::<_, WorkflowsState>(buf_reader)?)
+    // Deserialize from memory so that lengths found in a corrupted file are bounded by its size.
+    let bytes = std::fs::read(self.state_path.as_path())?;
+    Ok(bincode::deserialize::<WorkflowsState>(&bytes)?)
   }
 
   /// Stores states of the passed workflows if all pre-conditions are met.
-- 
2.43.0


From 3fc76520c5291bf92294038d892a4590fc50d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 03/35] fix: reload the watched configuration when rename
 notifications were dropped

---
 bd-runtime-config/src/loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bd-runtime-config/src/loader.rs b/bd-runtime-config/src/loader.rs
index ac15aff..b590bc2 100644
--- a/bd-runtime-config/src/loader.rs
+++ b/bd-runtime-config/src/loader.rs
@@ -270,6 +270,8 @@ impl<ConfigType: Send + Sync + 'static + ?Sized> WatchedFileLoader<ConfigType> {
           log::debug!("got event: {:?}", event);
           match event.kind {
             EventKind::Modify(ModifyKind::Name(mode)) if mode == Self::rename_mode() => {},
+            // Events were dropped (the notification queue overflowed), renames may be among them.
+            _ if event.need_rescan() => {},
             _ => continue,
           }
 
-- 
2.43.0


From 563a53d380c9c04571d2a2207db5adfdac02c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 04/35] fix: label tracker must not confuse labels whose names
 contain underscores

---
 bd-server-stats/src/stats.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-server-stats/src/stats.rs b/bd-server-stats/src/stats.rs
index f53a47a..1a4b165 100644
--- a/bd-server-stats/src/stats.rs
+++ b/bd-server-stats/src/stats.rs
@@ -92,7 +92,8 @@ impl LabelTracker {
 
     let mut use_fallback_labels = false;
     for (index, label_name) in label_names.iter().enumerate() {
-      let final_label = concat_string::concat_string!(label_name, "_", provided_labels[index]);
+      // The separator cannot be part of a label name, so that different labels are never confused.
+      let final_label = concat_string::concat_string!(label_name, "=", provided_labels[index]);
       if let Entry::Vacant(entry) = self.labels.entry(final_label) {
         // See if there is space. This is not exact as we check the load only which can race, but
         // it's close enough.
-- 
2.43.0


From 690dbea87561ee7dad6a6499770a3cb168ccb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 05/35] fix: a drain ends when the record it waits for is
 overwritten

---
 bd-buffer/src/buffer/common_ring_buffer.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..ff4e847 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -437,6 +437,7 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
         let next_read_start = guard.next_read_start().unwrap();
         guard.zero_extra_data(next_read_start);
         guard.advance_next_read(next_read_actual_size, Cursor::No);
+        Self::maybe_complete_drain(guard, conditions, next_read_start);
       } else {
         break;
       }
@@ -652,18 +653,26 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     }
     log::trace!("({}) finish read {}", guard.name, reservation);
 
-    // TODO(mattklein123): Handle the case in which the target committed write start gets
-    // overwritten.
+    Self::maybe_complete_drain(guard, conditions, reservation.start);
+
+    guard.maybe_do_total_data_loss_reset();
+  }
+
+  // Wake anything waiting for a drain if the record that was just released, either because it was
+  // read or because it was overwritten, is the one the drain is waiting for.
+  fn maybe_complete_drain(
+    guard: &mut MutexGuard<'_, Self>,
+    conditions: &Conditions,
+    released_start: u32,
+  ) {
     if let Some(wait_for_drain_data) = &guard.wait_for_drain_data {
       if wait_for_drain_data.committed_write_start.is_none()
-        || wait_for_drain_data.committed_write_start.unwrap() == reservation.start
+        || wait_for_drain_data.committed_write_start.unwrap() == released_start
       {
         conditions.drain_complete.notify_all();
         guard.wait_for_drain_data = None;
       }
     }
-
-    guard.maybe_do_total_data_loss_reset();
   }
 
   // Finish a total data loss reset if there are no outstanding readers/writers.
-- 
2.43.0


From de0501c092902ec68063fa3df70f3304da77aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 06/35] fix: a cursor consumer must release the records it
 skips

A cursor consumer that skipped a corrupted record, or an abandoned
reservation, left the read position behind: releasing the next record moved
it by the wrong amount, after which it pointed into the middle of a record
and all of the buffer's contents were dropped as corrupted. Skipped records
are now released in order with the records around them.
---
 bd-buffer/src/buffer/common_ring_buffer.rs    |  19 +++-
 .../src/buffer/non_volatile_ring_buffer.rs    | 100 +++++++++++++-----
 2 files changed, 89 insertions(+), 30 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index ff4e847..56ba75b 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -638,7 +638,24 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     conditions: &Conditions,
     reservation: &Range,
   ) {
-    guard.advance_next_read(reservation.size, Cursor::No);
+    // A cursor that has read everything resumes at the next record that is committed. If a
+    // reservation was abandoned in between, it has to be released together with that record.
+    while let Some(next_read_start) = *guard.next_read_start() {
+      if next_read_start == reservation.start {
+        guard.advance_next_read(reservation.size, Cursor::No);
+        break;
+      }
+      match guard.load_next_read_size(Cursor::No) {
+        Ok(size) => {
+          let size = size + guard.extra_bytes_per_record;
+          guard.advance_next_read(size, Cursor::No);
+        },
+        Err(_) => {
+          guard.on_total_data_loss();
+          break;
+        },
+      }
+    }
     conditions.next_read_complete.notify_all();
 
     let record_size = reservation.size - guard.extra_bytes_per_record;
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..5c8c4a5 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -108,7 +108,7 @@ impl RingBufferProducer for ProducerImpl {
         .as_mut()
         .and_then(|c| match c {
           ConsumerType::Consumer(c) => c.clone(),
-          ConsumerType::CursorConsumer(c) => c.front().cloned(),
+          ConsumerType::CursorConsumer(c) => c.front().map(|r| r.range.clone()),
         });
 
       match read_reservation {
@@ -449,22 +449,13 @@ struct CursorConsumerImpl {
 impl CursorConsumerImpl {
   fn get_reservations<'a>(
     guard: &'a MutexGuard<'_, LockedData<ExtraLockedData>>,
-  ) -> &'a IntrusiveQueueWithFreeList<Range> {
+  ) -> &'a IntrusiveQueueWithFreeList<CursorReservation> {
     match guard.extra_locked_data.consumer.as_ref().unwrap() {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => c,
     }
   }
 
-  fn get_reservations_mut<'a>(
-    guard: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
-  ) -> &'a mut IntrusiveQueueWithFreeList<Range> {
-    match guard.extra_locked_data.consumer.as_mut().unwrap() {
-      ConsumerType::Consumer(_) => unreachable!(),
-      ConsumerType::CursorConsumer(c) => c,
-    }
-  }
-
   #[allow(clippy::unused_self)]
   fn inner_start_read<'a>(
     &'a self,
@@ -494,7 +485,10 @@ impl CursorConsumerImpl {
     {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => {
-        c.emplace_back(reservation.unwrap());
+        c.emplace_back(CursorReservation {
+          range: reservation.unwrap(),
+          corrupted: false,
+        });
       },
     }
 
@@ -576,17 +570,14 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       ));
     }
 
-    let next_reservation = Self::get_reservations(&common_ring_buffer)
-      .front()
-      .unwrap()
-      .clone();
-    Self::get_reservations_mut(&mut common_ring_buffer).pop_front();
-    LockedData::finish_read_common(
+    finish_cursor_read(
+      &mut common_ring_buffer,
+      &parent.common_ring_buffer.conditions,
+    );
+    release_corrupted_cursor_reads(
       &mut common_ring_buffer,
       &parent.common_ring_buffer.conditions,
-      &next_reservation,
     );
-    write_header_crc32(&mut common_ring_buffer);
     parent.no_consumer_reservation_condition.notify_all();
     Ok(())
   }
@@ -623,13 +614,25 @@ pub struct FileHeader {
 
 const FILE_HEADER_CURRENT_VERSION: u32 = 1;
 
+//
+// CursorReservation
+//
+
+// A record that a cursor consumer has moved past, but which has not yet been released.
+struct CursorReservation {
+  range: Range,
+  // Corrupted records are never handed out, so they are released without the consumer asking for it
+  // as soon as every record in front of them has been released.
+  corrupted: bool,
+}
+
 //
 // ConsumerType
 //
 
 enum ConsumerType {
   Consumer(Option<Range>),
-  CursorConsumer(IntrusiveQueueWithFreeList<Range>),
+  CursorConsumer(IntrusiveQueueWithFreeList<CursorReservation>),
 }
 
 //
@@ -1072,6 +1075,37 @@ fn compute_header_crc_32(
   })
 }
 
+// Release the oldest record that a cursor consumer has moved past.
+fn finish_cursor_read(
+  guard: &mut MutexGuard<'_, LockedData<ExtraLockedData>>,
+  conditions: &Conditions,
+) {
+  let range = match guard.extra_locked_data.consumer.as_mut() {
+    Some(ConsumerType::CursorConsumer(c)) => {
+      let range = c.front().unwrap().range.clone();
+      c.pop_front();
+      range
+    },
+    _ => unreachable!(),
+  };
+  LockedData::finish_read_common(guard, conditions, &range);
+  write_header_crc32(guard);
+}
+
+// Release any corrupted records which have no record that is still being read in front of them.
+fn release_corrupted_cursor_reads(
+  guard: &mut MutexGuard<'_, LockedData<ExtraLockedData>>,
+  conditions: &Conditions,
+) {
+  loop {
+    match guard.extra_locked_data.consumer.as_ref() {
+      Some(ConsumerType::CursorConsumer(c)) if c.front().map_or(false, |r| r.corrupted) => {},
+      _ => return,
+    }
+    finish_cursor_read(guard, conditions);
+  }
+}
+
 // Common start read handling for regular and cursor consumers.
 fn common_consumer_start_read<'a>(
   common_ring_buffer: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
@@ -1113,18 +1147,26 @@ fn common_consumer_start_read<'a>(
 
         // What we do here depends on whether we are in cursor mode or not. If not in cursor mode
         // we need to finish the read so we advance past the record and can accept a new start
-        // read reservation. If we are in cursor mode, we can simply null out the reservation as
-        // it has not yet been committed to the reservation list.
+        // read reservation. If we are in cursor mode, the record must be released in order with the
+        // records that have been handed out, otherwise the read position would no longer line up
+        // with them.
+        let corrupted_reservation = reservation.take().unwrap();
         if matches!(cursor, Cursor::No) {
-          LockedData::finish_read_common(
-            common_ring_buffer,
-            conditions,
-            reservation.as_ref().unwrap(),
-          );
+          LockedData::finish_read_common(common_ring_buffer, conditions, &corrupted_reservation);
           write_header_crc32(common_ring_buffer);
+        } else {
+          match common_ring_buffer.extra_locked_data.consumer.as_mut() {
+            Some(ConsumerType::CursorConsumer(c)) => {
+              c.emplace_back(CursorReservation {
+                range: corrupted_reservation,
+                corrupted: true,
+              });
+            },
+            _ => unreachable!(),
+          }
+          release_corrupted_cursor_reads(common_ring_buffer, conditions);
         }
 
-        *reservation = None;
         continue;
       }
     }
-- 
2.43.0


From befde91f03537528c53bbb31c3bf3ea05ad76cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 07/35] fix: dropping a consumer wakes a producer that waits
 for its reservation

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 5c8c4a5..1fc81a0 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -433,6 +433,7 @@ impl Drop for ConsumerImpl {
         .lock()
         .extra_locked_data
         .consumer = None;
+      parent.no_consumer_reservation_condition.notify_all();
     }
   }
 }
@@ -592,6 +593,7 @@ impl Drop for CursorConsumerImpl {
         .lock()
         .extra_locked_data
         .consumer = None;
+      parent.no_consumer_reservation_condition.notify_all();
     }
   }
 }
-- 
2.43.0


From 02bf5c49b296a7b2a3c9e167aad7e105461f9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 08/35] fix: dropping a producer ends the wait for its
 reservation

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 1fc81a0..a3bd91c 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -269,6 +269,7 @@ impl Drop for ProducerImpl {
       let mut common_ring_buffer = parent.common_ring_buffer.locked_data.lock();
       debug_assert!(common_ring_buffer.extra_locked_data.producer.is_some());
       common_ring_buffer.extra_locked_data.producer = None;
+      parent.no_producer_reservation_condition.notify_all();
     }
   }
 }
-- 
2.43.0


From f8400c2bb99aa17b43b080842f157ecbfc86f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 09/35] fix: a record that does not fit on disk must not stop
 the flush thread

---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index 6cde4c2..4299b71 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -91,6 +91,11 @@ impl SharedData {
           // reset processing.
           debug_assert_eq!(message, "pending total data loss reset");
         },
+        Err(Error::AbslStatus(AbslCode::InvalidArgument, _)) => {
+          // Records have more overhead on disk than in memory, so when both buffers are of similar
+          // size a record that fits into memory may not fit on disk. Such a record can never be
+          // written and is dropped. The non-volatile buffer counts it as refused.
+        },
         Err(e) => {
           debug_assert!(self.shutdown_flush_thread.load(Ordering::Relaxed));
           debug_assert!(
-- 
2.43.0


From f5943664163be10b8c2d15cf9971323b5b178849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 10/35] fix: a flush request for an unknown buffer must not end
 the flush task

---
 bd-buffer/src/ring_buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..cfceca8 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -212,8 +212,9 @@ impl Manager {
           log::debug!("buffer_id={buffer_id} signaled to flush");
           buffer.flush();
         } else {
+          // The buffer may have been removed since the flush was requested. This must not prevent the
+          // remaining buffers or later requests from being processed.
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0


From d496f92d618d92a82a9f57dfa04ecff7661d9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 11/35] fix: a malformed compressed frame must not break
 decoding of other streams

---
 bd-grpc-codec/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..17a1c7c 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -395,8 +395,15 @@ impl<MessageType: Message> Decoder<MessageType> {
         // TODO(mattklein123): Using Decompress here directly should remove some copies that are
         // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          let result = decompressor
+            .write_all(&compressed)
+            .and_then(|()| decompressor.reset(Vec::new()));
+          if result.is_err() {
+            // The decompressor is shared by all streams on this thread, make sure that neither its
+            // state nor any partial output is visible to the next message.
+            *decompressor = ZlibDecoder::new(Vec::new());
+          }
+          result
         })?
       },
     };
-- 
2.43.0


From 5a8d2c3c874acb8fe3967d67b32be212d52106a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 12/35] fix: report counts of traversals processed before the
 matched logs limit stops a run

---
 bd-workflows/src/workflow.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..223287b 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -597,9 +597,10 @@ impl Run {
           return RunResult {
             state: RunState::Stopped,
             triggered_actions: vec![],
-            created_traversals_count: 0,
-            advanced_traversals_count: 0,
-            completed_traversals_count: 0,
+            // Traversals processed before this one may have forked or completed already.
+            created_traversals_count,
+            advanced_traversals_count,
+            completed_traversals_count,
             matched_logs_count: run_matched_logs_count,
           };
         }
-- 
2.43.0


From f13d6790c48ae6f4568b2cda5b41ef6ecef6afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 13/35] fix: remember a sankey path as uploaded only if its
 upload succeeded

---
 bd-workflows/src/sankey_diagram.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/sankey_diagram.rs b/bd-workflows/src/sankey_diagram.rs
index 68592a8..abcac8b 100644
--- a/bd-workflows/src/sankey_diagram.rs
+++ b/bd-workflows/src/sankey_diagram.rs
@@ -209,10 +209,18 @@ impl Processor {
       return;
     }
 
-    if let Err(error) = response.await {
-      log::debug!("failed to wait for sankey upload response: {error}");
-      self.stats.upload_completion_failures.inc();
-      return;
+    match response.await {
+      Ok(response) if response.success => {},
+      Ok(_) => {
+        log::debug!("sankey upload was not successful");
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
+      Err(error) => {
+        log::debug!("failed to wait for sankey upload response: {error}");
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
     }
 
     // Augustyniak: Is it risky to insert the path only in the case of a successful upload? maybe we
-- 
2.43.0


From c712f1afc98876c5e15b297366100829aa1c0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 14/35] fix: stream only to continuous buffers that exist

---
 bd-workflows/src/actions_flush_buffers.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/actions_flush_buffers.rs b/bd-workflows/src/actions_flush_buffers.rs
index b992a9b..28f603c 100644
--- a/bd-workflows/src/actions_flush_buffers.rs
+++ b/bd-workflows/src/actions_flush_buffers.rs
@@ -884,10 +884,14 @@ impl StreamingBuffersAction {
       return None;
     };
 
-    if streaming
+    // Dismiss continuous buffer IDs that do not exist (anymore).
+    let destination_continuous_buffer_ids: BTreeSet<_> = streaming
       .destination_continuous_buffer_ids
-      .is_disjoint(continuous_buffer_ids)
-    {
+      .intersection(continuous_buffer_ids)
+      .cloned()
+      .collect();
+
+    if destination_continuous_buffer_ids.is_empty() {
       log::debug!(
         "buffers streaming not activated: specified continuous buffer IDs are either empty or \
          don't exist"
@@ -899,7 +903,7 @@ impl StreamingBuffersAction {
       id: action.id,
       session_id: action.session_id,
       source_trigger_buffer_ids: action.trigger_buffer_ids,
-      destination_continuous_buffer_ids: streaming.destination_continuous_buffer_ids,
+      destination_continuous_buffer_ids,
       max_logs_count: streaming.max_logs_count,
       logs_count: 0,
     })
-- 
2.43.0


From 65614ac1aa03c738f557aab771c431040669df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 15/35] fix: a flush decision applies to the pending action as
 it is now, and streams outlive workflows

---
 bd-workflows/src/engine.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 6c3caaf..54744b4 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -460,7 +460,9 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            // The pending action may differ from the negotiated one if the buffers configuration
+            // was updated in the meantime.
+            self.state.pending_actions.retain(|pending| pending.id != action.id);
             self.needs_state_persistence = true;
           }
         }
@@ -469,6 +471,19 @@ impl WorkflowsEngine {
   }
 
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
+    // Use the pending action as opposed to the negotiated one since the former is kept up to date
+    // with the buffers configuration. There is nothing left to do if the action was dropped in the
+    // meantime.
+    let Some(action) = self
+      .state
+      .pending_actions
+      .iter()
+      .find(|pending| pending.id == action.id)
+      .cloned()
+    else {
+      log::debug!("ignoring approval of a dropped action: \"{}\"", action.id);
+      return;
+    };
     self.state.pending_actions.remove(&action);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
@@ -583,8 +598,8 @@ impl WorkflowsEngine {
       self.state.session_id = log.session_id.to_string();
     }
 
-    // Return early if there are no workflows.
-    if self.state.workflows.is_empty() {
+    // Return early if there are no workflows and no logs to stream.
+    if self.state.workflows.is_empty() && self.state.streaming_actions.is_empty() {
       self
         .stats
         .active_traversals_total
-- 
2.43.0


From fdd922eeced1b0ff21c057439b5caab2c7839c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 16/35] fix: do not restore the state of a workflow whose
 configuration changed

---
 bd-workflows/src/config.rs |  7 ++++
 bd-workflows/src/engine.rs | 69 ++++++++++++++++++++++++++------------
 2 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/bd-workflows/src/config.rs b/bd-workflows/src/config.rs
index daa1ef7..f45122c 100644
--- a/bd-workflows/src/config.rs
+++ b/bd-workflows/src/config.rs
@@ -18,6 +18,7 @@ use bd_proto::protos::workflow::workflow::workflow::{
 };
 use bd_proto::protos::workflow::workflow::WorkflowsConfiguration as WorkflowsConfigurationProto;
 use protobuf::MessageField;
+use sha2::Digest;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::time::Duration;
@@ -135,6 +136,12 @@ impl Config {
     &self.id
   }
 
+  /// Identifies the content of the configuration. Used to tell whether a persisted state of a
+  /// workflow belongs to this configuration.
+  pub(crate) fn fingerprint(&self) -> String {
+    format!("{:x}", sha2::Sha256::digest(format!("{self:?}")))
+  }
+
   pub(crate) fn states(&self) -> &[State] {
     &self.states
   }
diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 54744b4..5b7ade5 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -44,7 +44,7 @@ use bd_stats_common::labels;
 use bd_time::TimeDurationExt as _;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fs::File;
 use std::io::{BufWriter, Write};
 use std::path::{Path, PathBuf};
@@ -171,10 +171,20 @@ impl WorkflowsEngine {
         .standardize_streaming_buffers(state.streaming_actions);
 
       self.state.session_id.clone_from(&state.session_id);
-      self.add_workflows(
-        config.workflows_configuration.workflows,
-        Some(state.workflows),
-      );
+      // The configuration may have changed since the state was persisted. The state of a workflow
+      // is meaningful only for the configuration it was created with.
+      let config_fingerprints = state.config_fingerprints;
+      let workflows = state
+        .workflows
+        .into_iter()
+        .filter(|workflow| {
+          config.workflows_configuration.workflows.iter().any(|c| {
+            c.id() == workflow.id()
+              && config_fingerprints.get(workflow.id()) == Some(&c.fingerprint())
+          })
+        })
+        .collect();
+      self.add_workflows(config.workflows_configuration.workflows, Some(workflows));
     } else {
       self.add_workflows(config.workflows_configuration.workflows, None);
     }
@@ -383,6 +393,10 @@ impl WorkflowsEngine {
 
     self.current_traversals_count += workflow.traversals_count();
 
+    self
+      .state
+      .config_fingerprints
+      .insert(config.id().to_string(), config.fingerprint());
     self.configs.push(config);
     self.state.workflows.push(workflow);
   }
@@ -390,6 +404,7 @@ impl WorkflowsEngine {
   fn remove_workflow(&mut self, workflow_index: usize) {
     self.configs.remove(workflow_index);
     let workflow = self.state.workflows.remove(workflow_index);
+    self.state.config_fingerprints.remove(workflow.id());
 
     let workflow_traversals_count = workflow.traversals_count();
     self.stats.workflow_stops_total.inc();
@@ -1075,6 +1090,9 @@ pub(crate) struct WorkflowsState {
 
   pending_actions: BTreeSet<PendingFlushBuffersAction>,
   streaming_actions: Vec<StreamingBuffersAction>,
+
+  // Fingerprints of the configurations that `workflows` belong to, keyed by workflow ID.
+  config_fingerprints: BTreeMap<String, String>,
 }
 
 impl WorkflowsState {
@@ -1082,26 +1100,35 @@ impl WorkflowsState {
   /// initial state runs and workflows that do not have any
   /// non initial state runs.
   fn optimized(&self) -> Self {
+    let workflows: Vec<Workflow> = self
+      .workflows
+      .iter()
+      .filter_map(|workflow| {
+        // Don't store information about workflow runs that are in the initial state
+        // as these can be always recreated when needed.
+        let workflow = workflow.optimized();
+
+        // Omit workflows that have no run in non initial state.
+        if workflow.runs().is_empty() {
+          None
+        } else {
+          Some(workflow)
+        }
+      })
+      .collect();
+
+    let config_fingerprints = workflows
+      .iter()
+      .filter_map(|workflow| self.config_fingerprints.get_key_value(workflow.id()))
+      .map(|(id, fingerprint)| (id.clone(), fingerprint.clone()))
+      .collect();
+
     Self {
       session_id: self.session_id.to_string(),
-      workflows: self
-        .workflows
-        .iter()
-        .filter_map(|workflow| {
-          // Don't store information about workflow runs that are in the initial state
-          // as these can be always recreated when needed.
-          let workflow = workflow.optimized();
-
-          // Omit workflows that have no run in non initial state.
-          if workflow.runs().is_empty() {
-            None
-          } else {
-            Some(workflow)
-          }
-        })
-        .collect(),
+      workflows,
       pending_actions: self.pending_actions.clone(),
       streaming_actions: self.streaming_actions.clone(),
+      config_fingerprints,
     }
   }
 
-- 
2.43.0


From 182bcab25b34d6d5f537080b60ae7661d4331e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 17/35] fix: a truncated compressed file is not a readable one

---
 bd-client-common/src/file.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/bd-client-common/src/file.rs b/bd-client-common/src/file.rs
index ac6c5c6..a70f738 100644
--- a/bd-client-common/src/file.rs
+++ b/bd-client-common/src/file.rs
@@ -6,8 +6,8 @@
 // https://polyformproject.org/wp-content/uploads/2020/06/PolyForm-Shield-1.0.0.txt
 
 use crate::zlib::DEFAULT_MOBILE_ZLIB_COMPRESSION_LEVEL;
-use flate2::read::{ZlibDecoder, ZlibEncoder};
-use flate2::Compression;
+use flate2::read::ZlibEncoder;
+use flate2::{Compression, Decompress, FlushDecompress, Status};
 use std::io::Read;
 
 pub fn write_compressed_protobuf<T: protobuf::Message>(message: &T) -> Vec<u8> {
@@ -34,8 +34,28 @@ pub fn read_compressed_protobuf<T: protobuf::Message>(
   // The files are likely not large enough to deal with streaming decompression on top of flate2.
   // For now we just read the entire thing and then decompress it in memory. We can consider
   // streaming later.
-  let mut decoder = ZlibDecoder::new(compressed_bytes);
+  // Note that the stream has to be read up to its end (which verifies the CRC): flate2's readers
+  // treat a truncated stream as if it ended regularly.
+  let mut decompress = Decompress::new(true);
+  let mut bytes = Vec::with_capacity(compressed_bytes.len().max(64) * 2);
+  loop {
+    let (total_in, total_out) = (decompress.total_in(), decompress.total_out());
+    let status = decompress.decompress_vec(
+      &compressed_bytes[usize::try_from(total_in)? ..],
+      &mut bytes,
+      FlushDecompress::None,
+    )?;
+    if status == Status::StreamEnd {
+      break;
+    }
+    if bytes.len() == bytes.capacity() {
+      bytes.reserve(bytes.capacity());
+    } else if (decompress.total_in(), decompress.total_out()) == (total_in, total_out) {
+      anyhow::bail!("unexpected end of file");
+    }
+  }
+
   // In the future if/when we switch to using Bytes/Chars in the compiled proto it may be more
   // efficient to read out the uncompressed into Bytes and then parse from that.
-  Ok(T::parse_from_reader(&mut decoder)?)
+  Ok(T::parse_from_bytes(&bytes)?)
 }
-- 
2.43.0


From 58e0487183994745c276ac20329f1bfb076171a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 18/35] fix: do not lose what is recorded to a metric while it
 is being collected

---
 bd-client-stats/src/stats.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..d1e8910 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -26,6 +26,7 @@ use bd_time::TimeDurationExt;
 #[cfg(test)]
 use stats_test::{TestHooks, TestHooksReceiver};
 use std::collections::HashMap;
+use std::sync::atomic::{fence, Ordering};
 use std::sync::Arc;
 use time::Duration;
 use tokio::sync::{mpsc, oneshot, watch};
@@ -268,14 +269,15 @@ impl Flusher {
     // During iteration if a metric has data, we retain it, since it is likely to be used again.
     // If there is no data we drop it if there are no outstanding references. This iteration
     // occurs under the collector lock so it is serialized with respect to new fetches.
+    // Whether there are outstanding references has to be determined before looking at the data: a
+    // reference might be used and dropped at any time, and what it recorded must not be lost.
     collector.retain(|id, metric| {
-      metric.snap().map_or_else(
-        || metric.multiple_references(),
-        |metric| {
-          snapshot.add_metric(id.clone(), metric);
-          true
-        },
-      )
+      let multiple_references = metric.multiple_references();
+      fence(Ordering::Acquire);
+      metric.snap().map_or(multiple_references, |metric| {
+        snapshot.add_metric(id.clone(), metric);
+        true
+      })
     });
   }
 
-- 
2.43.0


From 5acdebcfaeb8b416d1d734757c48e53c1742906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 19/35] fix: keep the statistics index in memory and on disk
 the same

---
 bd-client-stats/src/file_manager.rs | 76 ++++++++++++++++-------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index ce5958e..7d460b3 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -136,14 +136,13 @@ pub struct FileManager {
 }
 
 impl InitializedInner {
-  // Persist the index back to the filesystem.
-  async fn write_index(&self) -> anyhow::Result<()> {
-    let index = PendingAggregationIndex {
-      pending_files: self.index.iter().cloned().collect(),
+  // Persist a new index to the filesystem. The index in memory only follows once this succeeded, so
+  // that it never differs from what would be found after a restart.
+  async fn write_index(&mut self, index: VecDeque<PendingFile>) -> anyhow::Result<()> {
+    let compressed = write_compressed_protobuf(&PendingAggregationIndex {
+      pending_files: index.iter().cloned().collect(),
       ..Default::default()
-    };
-
-    let compressed = write_compressed_protobuf(&index);
+    });
     self
       .file_system
       .as_ref()
@@ -153,23 +152,30 @@ impl InitializedInner {
       )
       .await?;
 
+    self.index = index;
     Ok(())
   }
 
-  async fn delete_oldest_snapshot(&mut self) -> anyhow::Result<()> {
-    self
-      .file_system
-      .delete_file(&STATS_DIRECTORY.join(&self.index[0].name))
-      .await?;
-    self.index.pop_front();
+  async fn delete_oldest_snapshot(
+    &mut self,
+    index: &mut VecDeque<PendingFile>,
+  ) -> anyhow::Result<()> {
+    if let Some(oldest) = index.front() {
+      self
+        .file_system
+        .delete_file(&STATS_DIRECTORY.join(&oldest.name))
+        .await?;
+      index.pop_front();
+    }
 
     Ok(())
   }
 
   async fn delete_pending_upload(&mut self) -> anyhow::Result<()> {
     log::debug!("deleting pending upload: {}", self.index[0].name);
-    self.delete_oldest_snapshot().await?;
-    self.write_index().await?;
+    let mut index = self.index.clone();
+    self.delete_oldest_snapshot(&mut index).await?;
+    self.write_index(index).await?;
 
     Ok(())
   }
@@ -183,8 +189,9 @@ impl Inner {
     // entire directory as there is no reasonable way to manage the contents.
     match self {
       Self::Initialized(inner) => Ok(inner),
-      Self::NotInitialized(file_system) => {
-        let file_system = file_system.take().unwrap();
+      Self::NotInitialized(not_initialized) => {
+        // If anything fails below we stay uninitialized and try again on the next use.
+        let file_system = not_initialized.as_ref().unwrap();
         let path = STATS_DIRECTORY.join(&*PENDING_AGGREGATION_INDEX_FILE);
         log::debug!("initializing pending aggregation index: {}", path.display());
         let index = match file_system
@@ -204,7 +211,7 @@ impl Inner {
         };
 
         *self = Self::Initialized(InitializedInner {
-          file_system,
+          file_system: not_initialized.take().unwrap(),
           index: index.pending_files.into(),
         });
 
@@ -236,7 +243,8 @@ impl FileManager {
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    let create_new_snapshot = initialized_inner.index.back_mut().map_or(true, |file| {
+    let mut index = initialized_inner.index.clone();
+    let create_new_snapshot = index.back_mut().map_or(true, |file| {
       if file.period_end.is_some() {
         log::debug!("snapshot is ready to upload, creating new snapshot");
         true
@@ -253,9 +261,9 @@ impl FileManager {
     });
 
     if create_new_snapshot {
-      if self.max_aggregated_files.read() <= u32::try_from(initialized_inner.index.len()).unwrap() {
+      if self.max_aggregated_files.read() <= u32::try_from(index.len()).unwrap() {
         log::debug!("max files reached, popping oldest snapshot");
-        initialized_inner.delete_oldest_snapshot().await?;
+        initialized_inner.delete_oldest_snapshot(&mut index).await?;
       }
 
       let pending_file = PendingFile {
@@ -264,8 +272,8 @@ impl FileManager {
         ..Default::default()
       };
       log::debug!("creating new snapshot in index: {}", pending_file.name);
-      initialized_inner.index.push_back(pending_file);
-      initialized_inner.write_index().await?;
+      index.push_back(pending_file);
+      initialized_inner.write_index(index).await?;
     }
 
     // Read the file back or make a new one. We don't count an error reading the file or file
@@ -309,8 +317,9 @@ impl FileManager {
       "removing empty snapshot from index: {}",
       initialized_inner.index.back().unwrap().name
     );
-    initialized_inner.index.pop_back();
-    initialized_inner.write_index().await?;
+    let mut index = initialized_inner.index.clone();
+    index.pop_back();
+    initialized_inner.write_index(index).await?;
 
     Ok(())
   }
@@ -367,8 +376,9 @@ impl FileManager {
           "marking entry as ready to upload: {}",
           initialized_inner.index[0].name
         );
-        initialized_inner.index[0].period_end = self.time_provider.now().into_proto();
-        initialized_inner.write_index().await?;
+        let mut index = initialized_inner.index.clone();
+        index[0].period_end = self.time_provider.now().into_proto();
+        initialized_inner.write_index(index).await?;
       }
 
       let path = STATS_DIRECTORY.join(&initialized_inner.index[0].name);
@@ -412,16 +422,16 @@ impl FileManager {
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    if initialized_inner.index[0].name != uuid {
+    if initialized_inner
+      .index
+      .front()
+      .map_or(true, |file| file.name != uuid)
+    {
       // There is a race condition in which we could theoretically have reached max files, but
       // there is an upload in flight that comes back after we already popped the first entry.
       // We could handle this by having the max file code not pop inflight uploads, but that is
       // more complicated than just ignoring the response here.
-      log::debug!(
-        "pending upload {} does not match expected {}",
-        initialized_inner.index[0].name,
-        uuid
-      );
+      log::debug!("pending upload does not match expected {uuid}");
       return Ok(());
     }
 
-- 
2.43.0


From ef149b9f08e22a7690a6ec28e51e3920440332f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 20/35] fix: reject integer conditions without an operator
 instead of never matching them

---
 bd-log-matcher/src/matcher.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bd-log-matcher/src/matcher.rs b/bd-log-matcher/src/matcher.rs
index c4c1cb4..a659143 100644
--- a/bd-log-matcher/src/matcher.rs
+++ b/bd-log-matcher/src/matcher.rs
@@ -133,6 +133,7 @@ pub struct IntMatch {
 impl IntMatch {
   fn new(operator: Operator, value: i32) -> Result<Self> {
     match operator {
+      Operator::OPERATOR_UNSPECIFIED => Err(anyhow!("UNSPECIFIED operator")),
       // Regex operator is not valid for int32
       Operator::OPERATOR_REGEX => Err(anyhow!("regex does not support int32")),
       _ => Ok(Self { operator, value }),
-- 
2.43.0


From 8d71378e9a06567b5756048eb6aae67815b567de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 21/35] fix: do not overwrite a binary field that a filter
 should leave alone

---
 bd-log-filter/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bd-log-filter/src/lib.rs b/bd-log-filter/src/lib.rs
index 3480d9c..fbf9cbf 100644
--- a/bd-log-filter/src/lib.rs
+++ b/bd-log-filter/src/lib.rs
@@ -275,7 +275,7 @@ impl SetField {
   }
 
   fn apply(&self, log: &mut Log) {
-    if !self.is_override_allowed && log.field_value(&self.field_name).is_some() {
+    if !self.is_override_allowed && log.has_field(&self.field_name) {
       // Return if a field with the desired field name already exists and the transform is not
       // allowed to override existing values.
       return;
@@ -397,6 +397,9 @@ fn set_field(fields: &mut LogFields, field: LogField) {
 
 trait FieldProvider {
   fn field_value(&self, key: &str) -> Option<Cow<'_, str>>;
+
+  /// Whether there is anything under the provided key, including a binary value.
+  fn has_field(&self, key: &str) -> bool;
 }
 
 impl FieldProvider for Log {
@@ -414,4 +417,13 @@ impl FieldProvider for Log {
         .map(Into::into),
     }
   }
+
+  fn has_field(&self, key: &str) -> bool {
+    self.field_value(key).is_some()
+      || self
+        .fields
+        .iter()
+        .chain(self.matching_fields.iter())
+        .any(|f| f.key == key)
+  }
 }
-- 
2.43.0


From 27b118e45a6866d44cff6caff47340224181da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 22/35] fix: keep the records of a cancelled upload in their
 buffer

---
 bd-logger/src/consumer.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index d265da8..adc715a 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -9,7 +9,7 @@
 #[path = "./consumer_test.rs"]
 mod consumer_test;
 
-use crate::service::{self, UploadRequest};
+use crate::service::{self, UploadRequest, UploadResult};
 use anyhow::anyhow;
 use bd_api::upload::LogBatch;
 use bd_api::{DataUpload, TriggerUpload};
@@ -532,7 +532,14 @@ impl ContinuousBufferUploader {
 
     log::debug!("completed continuous upload with result: {:?}", result);
 
-    // Regardless of the outcome of the upload, advance the read cursor to mark the records as
+    // An upload is only canceled as part of shutting down, in which case the records were never
+    // acknowledged. Leave them in the buffer and wait for this task to be terminated.
+    if matches!(result, UploadResult::Canceled) {
+      self.shutdown.cancelled().await;
+      return Ok(());
+    }
+
+    // For all other outcomes of the upload, advance the read cursor to mark the records as
     // written.
     for _ in 0 .. logs_len {
       self.consumer.advance_read_cursor()?;
@@ -679,7 +686,7 @@ impl CompleteBufferUpload {
         // No more logs available, flush current batch if there are any logs.
         Err(Error::AbslStatus(AbslCode::Unavailable, _)) => {
           if !self.batch_builder.logs.is_empty() {
-            self.flush_batch().await?;
+            self.flush_batch().await;
           }
 
           log::debug!("trigger upload complete, sent {} logs", total_logs);
@@ -689,13 +696,16 @@ impl CompleteBufferUpload {
         Err(e) => return Err(e.into()),
       }
 
-      if self.batch_builder.limit_reached() {
-        self.flush_batch().await?;
+      // If the upload was canceled we are shutting down: leave the rest of the logs in the buffer.
+      if self.batch_builder.limit_reached()
+        && matches!(self.flush_batch().await, UploadResult::Canceled)
+      {
+        return Ok(total_logs);
       }
     }
   }
 
-  async fn flush_batch(&mut self) -> anyhow::Result<()> {
+  async fn flush_batch(&mut self) -> UploadResult {
     let logs = self.batch_builder.take();
 
     log::debug!("flushing {} logs", logs.len());
@@ -720,6 +730,6 @@ impl CompleteBufferUpload {
 
     log::debug!("completed trigger batch upload with result: {:?}", result);
 
-    Ok(())
+    result
   }
 }
-- 
2.43.0


From 3b861c1e57221f7d69ad5df861ed77223b6da1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 23/35] fix: count uploads as given up only when they failed

---
 bd-logger/src/service.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 70dcd4f..d7db16c 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -234,6 +234,11 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     req: &mut UploadRequest,
     result: &mut std::result::Result<UploadResult, Infallible>,
   ) -> Option<Self::Future> {
+    // Only failed uploads are retried.
+    if !matches!(result, Ok(UploadResult::Failure)) {
+      return None;
+    }
+
     log::debug!(
       "considering request with {} logs, {} attempts left",
       req.log_upload.logs.len(),
@@ -254,16 +259,13 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     let backoff_delay = backoff.next_backoff().unwrap();
     self.attempts += 1;
 
-    match result {
-      Ok(UploadResult::Failure) => Some(Box::pin(async move {
-        log::trace!(
-          "waiting for {}ms for next attempt",
-          backoff_delay.as_millis()
-        );
-        tokio::time::sleep(backoff_delay).await;
-      })),
-      _ => None,
-    }
+    Some(Box::pin(async move {
+      log::trace!(
+        "waiting for {}ms for next attempt",
+        backoff_delay.as_millis()
+      );
+      tokio::time::sleep(backoff_delay).await;
+    }))
   }
 
   fn clone_request(&mut self, req: &UploadRequest) -> Option<UploadRequest> {
-- 
2.43.0


From 7ad96277c62fc560c85a98b457a5a9530d04ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:50 +0000
Subject: [PATCH 24/35] fix: do not hold the error handler's lock while a
 reporter runs

---
 bd-client-common/src/error.rs | 41 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/bd-client-common/src/error.rs b/bd-client-common/src/error.rs
index ebe2869..a57498d 100644
--- a/bd-client-common/src/error.rs
+++ b/bd-client-common/src/error.rs
@@ -199,36 +199,35 @@ impl UnexpectedErrorHandler {
   }
 
   // Reports an unexpected error. The string will be forwarded to the reporter if one has been
-  // attached.
-  fn report(&mut self, message: &str, description: &str, details: impl FnOnce() -> Option<String>) {
+  // attached. The handler is not locked while the reporter runs, as the reporter may itself hit an
+  // unexpected error.
+  fn report(message: &str, description: &str, details: impl FnOnce() -> Option<String>) {
     let formatted = format!("{description}: {message}");
 
     log::warn!("unexpected error: {}", &formatted);
 
-    if self.remaining_reports == 0 {
-      log::warn!("not reporting error, limit hit");
-      if let Some(dropped_errors) = &self.dropped_errors {
-        dropped_errors.inc();
+    let reporter = {
+      let mut l = ERROR_HANDLER.lock();
+      if l.remaining_reports == 0 {
+        log::warn!("not reporting error, limit hit");
+        if let Some(dropped_errors) = &l.dropped_errors {
+          dropped_errors.inc();
+        }
+        return;
       }
-      return;
-    }
-    self.remaining_reports -= 1;
+      l.remaining_reports -= 1;
+      l.reporter.clone()
+    };
 
     let details = details();
 
     // If a per-thread override has been set, use this instead of the static handler. This allows
     // overriding the handling in test while also working around the fact that the tests run in
     // parallel.
-    if PER_THREAD_REPORTER.with(|reporter| {
-      (*reporter.borrow()).as_ref().map_or(false, |reporter| {
-        reporter.report(&formatted, &details, &HashMap::new());
-        true
-      })
-    }) {
-      return;
-    }
-
-    self.reporter.report(&formatted, &details, &HashMap::new());
+    let per_thread_reporter = PER_THREAD_REPORTER.with(|reporter| reporter.borrow().clone());
+    per_thread_reporter
+      .unwrap_or(reporter)
+      .report(&formatted, &details, &HashMap::new());
   }
 }
 
@@ -250,9 +249,7 @@ pub fn handle_unexpected_error_with_details<E: Into<anyhow::Error> + Sync>(
   details: impl FnOnce() -> Option<String>,
 ) {
   let e: anyhow::Error = e.into();
-  ERROR_HANDLER
-    .lock()
-    .report(e.to_string().as_str(), description, details);
+  UnexpectedErrorHandler::report(e.to_string().as_str(), description, details);
 }
 
 pub fn handle_unexpected<T, E: Into<anyhow::Error> + Sync>(
-- 
2.43.0


From 0ffb98ce3083b2329d42d30f4a071483ef427655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:50 +0000
Subject: [PATCH 25/35] fix: restore the outer error reporter override when an
 inner one ends

---
 bd-client-common/src/error.rs | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bd-client-common/src/error.rs b/bd-client-common/src/error.rs
index a57498d..f199abb 100644
--- a/bd-client-common/src/error.rs
+++ b/bd-client-common/src/error.rs
@@ -159,12 +159,8 @@ impl UnexpectedErrorHandler {
 
   #[must_use]
   pub fn with_reporter<T>(reporter: Arc<dyn Reporter>, f: impl FnOnce() -> T) -> T {
-    PER_THREAD_REPORTER.with(|per_thread_reporter| {
-      *per_thread_reporter.borrow_mut() = Some(reporter);
-      let r = f();
-      *per_thread_reporter.borrow_mut() = None;
-      r
-    })
+    let _override = PerThreadOverride::new(reporter);
+    f()
   }
 
   /// Runs the provided future with the provided error reporter overriding the default handler,
@@ -175,16 +171,8 @@ impl UnexpectedErrorHandler {
     reporter: Arc<dyn Reporter>,
     f: impl Future<Output = T> + 'static,
   ) -> T {
-    PER_THREAD_REPORTER.with(|per_thread_reporter| {
-      *per_thread_reporter.borrow_mut() = Some(reporter);
-    });
-
-    let r = f.await;
-
-    PER_THREAD_REPORTER.with(|per_thread_reporter| {
-      *per_thread_reporter.borrow_mut() = None;
-    });
-    r
+    let _override = PerThreadOverride::new(reporter);
+    f.await
   }
 
   pub fn register_stats(stats: &Scope) {
@@ -231,6 +219,26 @@ impl UnexpectedErrorHandler {
   }
 }
 
+// Overrides the reporter of the current thread until dropped, at which point the previous override
+// (if any) is restored.
+struct PerThreadOverride {
+  previous: Option<Arc<dyn Reporter>>,
+}
+
+impl PerThreadOverride {
+  fn new(reporter: Arc<dyn Reporter>) -> Self {
+    Self {
+      previous: PER_THREAD_REPORTER.with(|current| current.borrow_mut().replace(reporter)),
+    }
+  }
+}
+
+impl Drop for PerThreadOverride {
+  fn drop(&mut self) {
+    PER_THREAD_REPORTER.with(|current| *current.borrow_mut() = self.previous.take());
+  }
+}
+
 // Static error handler used for error reporting. We keep this static to allow for errors to be
 // reported that aren't tied to a specific logger (e.g. invalid logger id), which has the downside
 // of not linking the lifetime of the error handler to a specific logger. As such tracking dropped
-- 
2.43.0


From 479c2947964339f7d528f06380a86f8d34d3fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 26/35] fix: do not overflow when summing reported byte counts

---
 bd-logger/src/network.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/bd-logger/src/network.rs b/bd-logger/src/network.rs
index 771d2b5..3852a02 100644
--- a/bd-logger/src/network.rs
+++ b/bd-logger/src/network.rs
@@ -28,7 +28,7 @@ use time::ext::NumericalDuration;
 macro_rules! sample_add {
   ($sample:expr, $field_name:ident, $value:expr) => {
     if let Some(unwrapped_value) = $value {
-      $sample.$field_name += unwrapped_value;
+      $sample.$field_name = $sample.$field_name.saturating_add(unwrapped_value);
     }
   };
 }
@@ -37,9 +37,7 @@ macro_rules! sample_add {
 /// result to the first passed sample.
 macro_rules! accumulate_samples {
   ($lhs:expr, $rhs:expr, $field_name:ident) => {
-    $lhs.$field_name = vec![$lhs.$field_name, $rhs.$field_name]
-      .into_iter()
-      .fold(0, |acc, x| acc + x)
+    $lhs.$field_name = $lhs.$field_name.saturating_add($rhs.$field_name)
   };
 }
 
@@ -265,21 +263,15 @@ impl MetricsSample {
 
 impl MetricsSample {
   fn request_bytes_count(&self) -> u64 {
-    vec![
-      self.request_body_bytes_count,
-      self.request_headers_bytes_count,
-    ]
-    .into_iter()
-    .sum::<u64>()
+    self
+      .request_body_bytes_count
+      .saturating_add(self.request_headers_bytes_count)
   }
 
   fn response_bytes_count(&self) -> u64 {
-    vec![
-      self.response_body_bytes_count,
-      self.response_headers_bytes_count,
-    ]
-    .into_iter()
-    .sum::<u64>()
+    self
+      .response_body_bytes_count
+      .saturating_add(self.response_headers_bytes_count)
   }
 }
 
-- 
2.43.0


From cf3e3e883390d9dc80882d416e251266e3ab8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 27/35] fix: a zero reporting interval must not panic the
 logger

---
 bd-resource-utilization/src/lib.rs |  3 +++
 bd-time/src/lib.rs                 | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bd-resource-utilization/src/lib.rs b/bd-resource-utilization/src/lib.rs
index ddd60a1..17fc951 100644
--- a/bd-resource-utilization/src/lib.rs
+++ b/bd-resource-utilization/src/lib.rs
@@ -72,6 +72,9 @@ impl Reporter {
   }
 
   fn create_interval(interval: Duration, fire_immediately: bool) -> tokio::time::Interval {
+    // Tokio panics if the period of an interval is zero.
+    let interval = interval.max(Duration::from_millis(1));
+
     let mut interval = if fire_immediately {
       tokio::time::interval(interval)
     } else {
diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..1a77d52 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -118,6 +118,12 @@ pub trait TimeDurationExt {
   fn add_tokio_instant(self, instant: tokio::time::Instant) -> tokio::time::Instant;
 }
 
+/// The period of an interval. Tokio panics if the period is zero, which runtime configured durations
+/// may be.
+fn interval_period(duration: time::Duration) -> Duration {
+  duration.unsigned_abs().max(Duration::from_millis(1))
+}
+
 impl TimeDurationExt for time::Duration {
   fn advance(self) -> impl Future<Output = ()> {
     tokio::time::advance(self.unsigned_abs())
@@ -128,17 +134,17 @@ impl TimeDurationExt for time::Duration {
   }
 
   fn interval(self) -> Interval {
-    interval(self.unsigned_abs())
+    interval(interval_period(self))
   }
 
   fn interval_at(self) -> Interval {
-    interval_at(self.add_tokio_now(), self.unsigned_abs())
+    interval_at(self.add_tokio_now(), interval_period(self))
   }
 
   fn jittered_interval_at(self) -> Interval {
     let millis: u64 = self.whole_milliseconds().try_into().unwrap();
     let jittered = Duration::from_millis(thread_rng().gen_range(0 ..= millis));
-    interval_at(tokio::time::Instant::now() + jittered, self.unsigned_abs())
+    interval_at(tokio::time::Instant::now() + jittered, interval_period(self))
   }
 
   fn timeout<F: IntoFuture>(self, f: F) -> Timeout<F::IntoFuture> {
-- 
2.43.0


From 82fef075a0979d18f5adba02a0ae6856f761f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 28/35] fix: an upload that waits for the network must not
 block the stats flusher

---
 bd-client-stats/src/stats.rs | 47 +++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index d1e8910..88fc04c 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -26,10 +26,12 @@ use bd_time::TimeDurationExt;
 #[cfg(test)]
 use stats_test::{TestHooks, TestHooksReceiver};
 use std::collections::HashMap;
+use std::future::Future;
+use std::pin::Pin;
 use std::sync::atomic::{fence, Ordering};
 use std::sync::Arc;
 use time::Duration;
-use tokio::sync::{mpsc, oneshot, watch};
+use tokio::sync::{mpsc, watch};
 
 //
 // Ticker
@@ -79,6 +81,10 @@ impl Ticker for RuntimeWatchTicker {
   }
 }
 
+/// An upload on its way: resolves once the server has responded to it, or once it is known that it
+/// will not.
+type PendingUpload = Pin<Box<dyn Future<Output = UploadResponse> + Send>>;
+
 //
 // Flusher
 //
@@ -153,9 +159,7 @@ impl Flusher {
           upload_rx = self.upload_from_disk(false).await;
         },
         upload_result = async { upload_rx.as_mut().unwrap().await }, if upload_rx.is_some() => {
-          upload_rx = self.process_pending_upload_completion(
-            upload_result.unwrap_or(UploadResponse { success: false, uuid: String::new() })
-          ).await;
+          upload_rx = self.process_pending_upload_completion(upload_result).await;
 
           #[cfg(test)]
           self.test_hooks.sender.upload_complete_tx.send(()).await.unwrap();
@@ -284,17 +288,17 @@ impl Flusher {
   async fn upload_from_disk(
     &self,
     only_if_file_is_old: bool,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<PendingUpload> {
     async fn inner(
       flusher: &Flusher,
       only_if_file_is_old: bool,
-    ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+    ) -> anyhow::Result<Option<PendingUpload>> {
       if let Some(pending_upload) = flusher
         .file_manager
         .get_or_create_pending_upload(only_if_file_is_old)
         .await?
       {
-        return flusher.process_pending_upload(pending_upload).await;
+        return Ok(Some(flusher.process_pending_upload(pending_upload)));
       }
       Ok(None)
     }
@@ -316,10 +320,7 @@ impl Flusher {
 
   // Attempts to upload the provided stats request. Upon success, the file containing the pending
   // request will be deleted.
-  async fn process_pending_upload(
-    &self,
-    request: StatsUploadRequest,
-  ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+  fn process_pending_upload(&self, request: StatsUploadRequest) -> PendingUpload {
     let (stats, response_rx) = TrackedStatsUploadRequest::new(request.upload_uuid.clone(), request);
 
     log::debug!(
@@ -335,19 +336,27 @@ impl Flusher {
 
     let tracked_upload = DataUpload::StatsUploadRequest(stats);
 
-    // If this errors out the other end of the channel has closed, indicating that we are shutting
-    // down.
-    if self.data_flush_tx.send(tracked_upload).await.is_err() {
-      return Ok(None);
-    }
-
-    Ok(Some(response_rx))
+    // Handing over the upload waits for as long as there is no connection and another upload is
+    // queued already. This must not keep us from processing flushes in the meantime.
+    let data_flush_tx = self.data_flush_tx.clone();
+    Box::pin(async move {
+      // If this errors out the other end of the channel has closed, indicating that we are shutting
+      // down.
+      let response = match data_flush_tx.send(tracked_upload).await {
+        Ok(()) => response_rx.await.ok(),
+        Err(_) => None,
+      };
+      response.unwrap_or(UploadResponse {
+        success: false,
+        uuid: String::new(),
+      })
+    })
   }
 
   async fn process_pending_upload_completion(
     &self,
     upload_response: UploadResponse,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<PendingUpload> {
     log::debug!("stat upload attempt complete: {:?}", upload_response);
     if upload_response.success {
       // If this fails we are in a bad state and are likely going to end up double uploading, but
-- 
2.43.0


From b03d9e365331c09657e6c357d22103cb3eefb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 29/35] fix: an empty or incomplete cached configuration is an
 error, not an assertion failure

---
 bd-logger/src/client_config.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 881121a..8aeb789 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -155,15 +155,13 @@ impl<A: ApplyConfig> Config<A> {
       let configuration_update: ConfigurationUpdate = ConfigurationUpdate::parse_from_bytes(&data)?;
 
       // If this function succeeds, it should write back the file to disk.
-      let maybe_nack = self
+      //
+      // We should never persist config that results in a Nack, but the file may not be what we wrote
+      // (e.g., it's empty if the process was terminated while writing it). In such case we
+      // effectively drop the config on startup as the above function won't write it back.
+      self
         .process_configuration_update(&configuration_update)
-        .await;
-
-      // We should never persist config that results in a Nack, but if we do we effectively drop the
-      // config on startup as the above function won't write it back.
-      debug_assert!(maybe_nack.is_ok());
-
-      Ok(())
+        .await
     };
 
     result.map_err(|e| e.context("failed to load persisted config"))
-- 
2.43.0


From ccb5d0acc8f6f966a7aa44ba96d4a41973712339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 30/35] fix: report the version in force when a configuration
 is rejected

---
 bd-logger/src/client_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 8aeb789..e4d6082 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -179,7 +179,7 @@ impl<A: ApplyConfig + Send + Sync> bd_api::ConfigurationUpdate for Config<A> {
       .await
     {
       Some(Nack {
-        version_nonce: version_nonce.clone(),
+        version_nonce,
         error_details: e.to_string(),
         ..Default::default()
       })
@@ -190,7 +190,7 @@ impl<A: ApplyConfig + Send + Sync> bd_api::ConfigurationUpdate for Config<A> {
     Some(
       ClientConfigurationUpdate(ConfigurationUpdateAck {
         nack: nack.into(),
-        last_applied_version_nonce: version_nonce,
+        last_applied_version_nonce: self.configuration_version_id.clone().unwrap_or_default(),
         ..Default::default()
       })
       .into_request(),
-- 
2.43.0


From cdb44ab4603ab44a689860e1e3c0879e500317ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 31/35] fix: validate the buffer filters before changing the
 buffers

---
 bd-logger/src/client_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index e4d6082..f241d25 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -247,6 +247,10 @@ impl ApplyConfig for LoggerUpdate {
       filters,
     } = configuration;
 
+    // Make sure that the whole configuration is valid before changing anything. Otherwise, we would
+    // end up with the buffers of a configuration which we report as rejected.
+    let buffer_selector = bd_matcher::buffer_selector::BufferSelector::new(&buffer)?;
+
     let maybe_stream_buffer = self
       .buffer_manager
       .update_from_config(&buffer, !bdtail.active_streams.is_empty())
@@ -275,7 +279,7 @@ impl ApplyConfig for LoggerUpdate {
       .config_update_tx
       .send(ConfigUpdate {
         buffer_producers: BufferProducers::new(&self.buffer_manager)?,
-        buffer_selector: bd_matcher::buffer_selector::BufferSelector::new(&buffer)?,
+        buffer_selector,
         // TODO(Augustyniak): Propagate the information about invalid workflows to server.
         workflows_configuration,
         tail_configs: TailConfigurations::new(
-- 
2.43.0


From d35c927f62259af7478623a780b52a203ab21bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 32/35] fix: only a flushed trigger buffer makes a log about to
 be uploaded

---
 bd-logger/src/log_replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 6075c91..230bfe4 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -439,7 +439,7 @@ impl ProcessingPipeline {
     // Therefore, we assume that the log ends up being uploaded only if it is directed to one of the
     // trigger buffers that is about to be flushed.
     let written_to_flushed_trigger_buffer =
-      !written_to_buffers.is_disjoint(&buffers.trigger_buffer_ids);
+      !written_to_buffers.is_disjoint(triggered_flushes_buffer_ids);
 
     let is_log_about_to_be_uploaded =
       written_to_continuous_buffer || written_to_flushed_trigger_buffer;
-- 
2.43.0


From a1af1d22c97419d8d766676bfcc83f35102fe5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 33/35] fix: a buffer that cannot take a log must not keep it
 from the others

---
 bd-logger/src/log_replay.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 230bfe4..8dd0ce2 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -8,7 +8,7 @@
 use crate::client_config::TailConfigurations;
 use crate::logging_state::{BufferProducers, ConfigUpdate, InitializedLoggingContextStats};
 use bd_api::{DataUpload, TriggerUpload};
-use bd_buffer::{AbslCode, BuffersWithAck, Error};
+use bd_buffer::BuffersWithAck;
 use bd_client_common::fb::make_log;
 use bd_client_stats::FlushTrigger;
 use bd_log_filter::FilterChain;
@@ -394,21 +394,14 @@ impl ProcessingPipeline {
           // TODO(snowp): For both logger and buffer lookup we end up doing a map lookup, which
           // seems less than ideal in the logging path. Look into ways to optimize this,
           // possibly via vector indices instead of string keys.
-          match BufferProducers::producer(&mut buffers.buffers, buffer)?.write(data) {
-            // If the buffer is locked, drop the error. This helps ensure that we are able to
-            // log to all buffers even if one of them is locked.
-            // TODO(snowp): Track how often logs are dropped due to locks.
-            // If the buffer is out of space, drop the error.
-            // TODO(mattklein123): Track this via stats.
-            e @ Err(Error::AbslStatus(
-              AbslCode::FailedPrecondition | AbslCode::ResourceExhausted,
-              _,
-            )) => {
-              log::debug!("failed to write log to buffer: {e:?}");
-              Ok(())
-            },
-            e => e,
-          }?;
+          // A buffer that can't take the log (e.g., because it's locked, out of space or too small
+          // for the log) must not keep us from writing the log to the remaining buffers or from
+          // finishing its processing, so drop the error.
+          // TODO(snowp): Track how often logs are dropped due to locks.
+          // TODO(mattklein123): Track this via stats.
+          if let Err(e) = BufferProducers::producer(&mut buffers.buffers, buffer)?.write(data) {
+            log::debug!("failed to write log to buffer: {e:?}");
+          }
         }
         Ok(())
       },
-- 
2.43.0


From 619cb38fcb6938060911ff99041af55b942338c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 34/35] fix: a blocking log also flushes the buffers chosen by
 the workflows engine

---
 bd-logger/src/log_replay.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 8dd0ce2..9cd5d18 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -271,22 +271,35 @@ impl ProcessingPipeline {
         result.triggered_flush_buffers_action_ids.iter().copied(),
       )?;
 
-      if let Some(extra_matching_buffer) = Self::process_flush_buffers_actions(
+      let extra_matching_buffer = Self::process_flush_buffers_actions(
         &result.triggered_flush_buffers_action_ids,
         &mut self.buffer_producers,
         &result.triggered_flushes_buffer_ids,
         &result.log_destination_buffer_ids,
         log,
-      ) {
-        // We emitted a synthetic log. Add the buffer it was written to to the list of matching
-        // buffers.
-        matching_buffers.insert(extra_matching_buffer.into());
-      }
+      );
 
       // Check whether the caller is waiting for the log processing to complete. We call such logs
       // "blocking".
       let is_blocking = log_processing_completed_tx.is_some();
 
+      if is_blocking {
+        // The engine may have redirected the log to buffers other than the matching ones (i.e.,
+        // due to an active streaming). These need to be flushed too.
+        let destination_buffers = result
+          .log_destination_buffer_ids
+          .iter()
+          .map(|id| Cow::Owned(id.to_string()))
+          .collect::<Vec<Cow<'static, str>>>();
+        matching_buffers.extend(destination_buffers);
+      }
+
+      if let Some(extra_matching_buffer) = extra_matching_buffer {
+        // We emitted a synthetic log. Add the buffer it was written to to the list of matching
+        // buffers.
+        matching_buffers.insert(extra_matching_buffer.into());
+      }
+
       // Force the persistence of workflows state to disk if log is blocking.
       workflows_engine.maybe_persist(is_blocking).await;
     } else {
-- 
2.43.0


From 324f26f5c2dd8a6759a381461f87a3c5fb7a309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:49 +0000
Subject: [PATCH 35/35] fix: size the runtime by the value of NUM_CPUS

---
 bd-rt/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..6f6f90b 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -36,12 +36,13 @@ pub fn num_cpus() -> usize {
   if let Ok(num_cpus_env) = std::env::var("NUM_CPUS") {
     match num_cpus_env.parse::<f64>() {
       Ok(fractional_cpus) => {
-        if !fractional_cpus.is_normal() {
-          log::warn!(
-            "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
-          );
+        if fractional_cpus.is_normal() {
+          #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+          return (fractional_cpus as usize).clamp(1, MAX_RT_THREADPOOL_SIZE);
         }
-        return std::cmp::max(1, num_cpus as usize);
+        log::warn!(
+          "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
+        );
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0

