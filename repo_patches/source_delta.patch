From 7c08d490046cad07ff6b1ece5ffd839b25e98654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 01/32] fix: build a new digest index under another name and
 rename it when complete

A stop between the writes that create index.hdx left an index that could neither be opened nor created again.
---
 crates/storage/src/archive/digest_index/index.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 88ed0c3..ab17699 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -312,6 +312,16 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
             let salt = hasher_builder.hash_one(data_header.uid());
             let pepper = hasher_builder.hash_one(salt);
             let mut header = HdxHeader::from_data_header::<KSIZE, S>(data_header, salt, pepper);
+            // Build the initial file under another name and only move it into place once it is
+            // complete: a stop part way through would otherwise leave an index that can neither be
+            // opened nor be created again.
+            let new_path = dir.join("index.hdx.new");
+            hdx_file = OpenOptions::new()
+                .read(true)
+                .write(true)
+                .create(true)
+                .truncate(true)
+                .open(&new_path)?;
             header.write_header(&mut hdx_file)?;
             let bloom = Bloom::new();
             hdx_file.write_all(bloom.data())?;
@@ -328,6 +338,8 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
                 hdx_file.write_all(&chunk[..n * bucket_size])?;
                 remaining -= n;
             }
+            hdx_file.sync_all()?;
+            fs::rename(&new_path, dir.join("index.hdx"))?;
             // Header and initial buckets were just written; fsync the directory so the index.hdx
             // entry is durable.
             let _ = fsync_directory(dir);
-- 
2.43.0


From b1534e041caadb888d4fb369b24f677710476f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 02/32] fix: write the digest index's bloom filter before its
 header

The header says how far the data file is indexed. A stop between the two writes left that claim with the old
bloom filter, so stored keys were not found.
---
 crates/storage/src/archive/digest_index/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index ab17699..49fda0c 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -459,9 +459,11 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
 
     /// Write the indexes header and bloom filter to disk.
     fn write_header(&mut self) -> Result<(), io::Error> {
-        self.header.write_header(&mut self.hdx_file)?;
+        // The bloom filter goes first: the header's data_file_length says how far the data file is
+        // indexed, so a stop between the two must not leave that claim with an old bloom filter.
         self.hdx_file.seek(SeekFrom::Start(self.header.header_size() as u64))?;
         self.hdx_file.write_all(self.bloom.data())?;
+        self.header.write_header(&mut self.hdx_file)?;
         Ok(())
     }
 
-- 
2.43.0


From e8f4c769fc9e6df8f466745cc4246626b08d822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 03/32] fix: drop a sole position entry that has no data when a
 consensus pack is healed

A stop while the first output of an epoch was persisted left its position without data: the header could not be
read and saving the output again silently stored nothing.
---
 crates/storage/src/consensus_pack.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 770e710..06bcf15 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -703,9 +703,8 @@ impl Inner {
                     }
                 }
                 if idx == 0 {
-                    if idx != start_idx {
-                        consensus_pos_idx.truncate_all()?;
-                    }
+                    // Not even the first entry is backed by data (it may also be the only one).
+                    consensus_pos_idx.truncate_all()?;
                     break;
                 }
                 idx -= 1;
-- 
2.43.0


From 66ab687818c10e846490d11ff3725bb754adbbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 04/32] fix: keep the first position of a batch that is in
 several outputs of a pack

When the later output was lost in a crash the batch of the earlier one was not found any more.
---
 crates/storage/src/consensus_pack.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 06bcf15..014a3dc 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -1020,9 +1020,13 @@ impl Inner {
             if first_batch_pos.is_none() {
                 first_batch_pos = Some(position);
             }
-            self.batch_digests
-                .save(batch_digest, position)
-                .map_err(|e| PackError::IndexAppend(format!("batch {e}")))?;
+            // Keep the position of a batch that an earlier output stored too: this output may be lost
+            // (and its position truncated) in a crash that the earlier one survives.
+            if self.batch(batch_digest).is_none() {
+                self.batch_digests
+                    .save(batch_digest, position)
+                    .map_err(|e| PackError::IndexAppend(format!("batch {e}")))?;
+            }
             let len = self.data.file_len();
             self.consensus_digests.set_data_file_length(len);
             self.batch_digests.set_data_file_length(len);
-- 
2.43.0


From fdfbfb8bc863f572601c196393b37b86aefe46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 05/32] fix: drop a torn meta record when a consensus pack
 without outputs is opened

The meta record was appended after the torn one, and such a pack can not be streamed to a peer.
---
 crates/storage/src/consensus_pack.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 014a3dc..70ca809 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -769,6 +769,7 @@ impl Inner {
             genesis_consensus: previous_epoch.final_consensus,
         };
 
+        let mut consensus_pos_idx = Self::open_pdx_file(&base_dir, data.header(), false)?;
         if let Ok(meta) = data.fetch(DATA_HEADER_BYTES as u64) {
             let meta = meta.into_epoch()?;
             if epoch_meta != meta {
@@ -778,10 +779,14 @@ impl Inner {
                 ));
             }
         } else {
+            if consensus_pos_idx.is_empty() {
+                // Nothing was stored yet: drop what a crash while the meta record was written may
+                // have left of it, it has to be the first record of the pack.
+                data.truncate(DATA_HEADER_BYTES as u64)?;
+            }
             data.append(&PackRecord::EpochMeta(epoch_meta.clone()))
                 .map_err(|e| PackError::Append(e.to_string()))?;
         }
-        let mut consensus_pos_idx = Self::open_pdx_file(&base_dir, data.header(), false)?;
         let builder = BuildHasherDefault::<FxHasher>::default();
         let mut consensus_digests = HdxIndex::open_hdx_file(
             base_dir.join(Self::CONSENSUS_HASH_NAME),
-- 
2.43.0


From 7f7696a56e5663bb8573381e2036277f724a73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 06/32] fix: write the latest consensus slots only after the
 pack is persisted

A slot was written when an output was saved, before the pack was persisted. A stop in between left a latest
number the pack does not hold: saving that output again was refused and the node could not go on.
---
 crates/storage/src/consensus.rs | 67 ++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 45fe3eb..d2651a3 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -81,8 +81,8 @@ impl Drop for LatestConsensus {
 
 /// Commands for the background thread.
 enum LatestConsensusCommand {
-    /// Save an update to the next slot.
-    Update(Epoch, Epoch, u64, ConsensusSlot),
+    /// An update for the next slot, written by the next persist.
+    Update(Epoch, u64, ConsensusSlot),
     /// Fully persist the slot files.
     Persist(oneshot::Sender<()>),
     /// Persist then shutdown the background thread.
@@ -162,34 +162,42 @@ impl LatestConsensus {
                     error!(target: "consensus_chain", ?e, "failed to sync a file");
                 }
             }
+            // The last updates (one per slot) that are not written yet.  They are only written by a
+            // persist, which comes after the pack file is persisted: a slot that reaches the disk
+            // before the output it names would claim an output that a crash can still lose.
+            let mut pending: Vec<(Epoch, u64, ConsensusSlot)> = Vec::with_capacity(3);
+            let mut write_pending = |pending: &mut Vec<(Epoch, u64, ConsensusSlot)>| {
+                for (epoch, number, slot) in pending.drain(..) {
+                    let f = match slot {
+                        ConsensusSlot::Slot1 => &mut slot1,
+                        ConsensusSlot::Slot2 => &mut slot2,
+                    };
+                    let buffer = LatestConsensus::encode_slot(epoch, number);
+                    if let Err(e) = f.seek(SeekFrom::Start(0)) {
+                        error!(target: "consensus_chain", ?e, ?slot, "failed to sync a latest consensus state file");
+                        continue;
+                    }
+                    if let Err(e) = f.write_all(&buffer) {
+                        error!(target: "consensus_chain", ?e, ?slot, "failed to write to a latest consensus state file");
+                        continue;
+                    }
+                    sync_all_with_log(f);
+                }
+            };
             while let Some(com) = rx.blocking_recv() {
                 match com {
-                    LatestConsensusCommand::Update(old_epoch, epoch, number, slot) => {
-                        let f = match slot {
-                            ConsensusSlot::Slot1 => &mut slot1,
-                            ConsensusSlot::Slot2 => &mut slot2,
-                        };
-                        let buffer = LatestConsensus::encode_slot(epoch, number);
-                        if let Err(e) = f.seek(SeekFrom::Start(0)) {
-                            error!(target: "consensus_chain", ?e, ?slot, "failed to sync a latest consensus state file");
-                            continue;
-                        }
-                        if let Err(e) = f.write_all(&buffer) {
-                            error!(target: "consensus_chain", ?e, ?slot, "failed to write to a latest consensus state file");
-                            continue;
-                        }
-                        if old_epoch != epoch {
-                            sync_all_with_log(f);
+                    LatestConsensusCommand::Update(epoch, number, slot) => {
+                        pending.push((epoch, number, slot));
+                        if pending.len() > 2 {
+                            pending.remove(0);
                         }
                     }
                     LatestConsensusCommand::Persist(tx) => {
-                        sync_all_with_log(&slot1);
-                        sync_all_with_log(&slot2);
+                        write_pending(&mut pending);
                         let _ = tx.send(());
                     }
                     LatestConsensusCommand::Shutdown => {
-                        sync_all_with_log(&slot1);
-                        sync_all_with_log(&slot2);
+                        write_pending(&mut pending);
                         break;
                     }
                 }
@@ -241,24 +249,21 @@ impl LatestConsensus {
         Ok(me)
     }
 
-    /// Update the local state and send a message to save to disk in background.
+    /// Update the local state and send a message to save to disk in background with the next
+    /// persist.
     async fn update(&self, epoch: Epoch, number: u64) {
-        let (old_epoch, current_slot) = {
+        let current_slot = {
             let mut state = self.state.lock();
-            let old_epoch = state.epoch;
             state.epoch = epoch;
             state.number = number;
             match state.current_slot {
                 ConsensusSlot::Slot1 => state.current_slot = ConsensusSlot::Slot2,
                 ConsensusSlot::Slot2 => state.current_slot = ConsensusSlot::Slot1,
             }
-            let current_slot = state.current_slot;
-            (old_epoch, current_slot)
+            state.current_slot
         };
-        if let Err(e) = self
-            .tx
-            .send(LatestConsensusCommand::Update(old_epoch, epoch, number, current_slot))
-            .await
+        if let Err(e) =
+            self.tx.send(LatestConsensusCommand::Update(epoch, number, current_slot)).await
         {
             error!(target: "consensus_chain", ?e, "failed to send consensus latest update to background thread!");
         }
-- 
2.43.0


From 2b48c5c537bf41a4ce2a63a9656acc28d8f1e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 07/32] fix: heal epoch records whose first persist was cut
 short

Records without a position were left at the start of the file (every epoch number read from the file after a
restart was off by one), and records with one were never found by their digest.
---
 crates/storage/src/epoch_records.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index b3d3eb9..238272b 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1115,7 +1115,7 @@ impl Inner {
     fn heal_records(
         records: &mut Pack<EpochRecord>,
         epoch_idx: &mut PositionIndex<u64>,
-        record_digests: &HdxIndex,
+        record_digests: &mut HdxIndex,
     ) -> Result<(), EpochDbError> {
         let records_len = records.file_len();
         let digest_final = record_digests.data_file_length();
@@ -1146,6 +1146,22 @@ impl Inner {
                 records.truncate(new_len)?;
             }
         }
+        if epoch_idx.is_empty() && records.file_len() > DATA_HEADER_BYTES as u64 {
+            // Records that made it to disk without being indexed: the first record will be saved
+            // again and has to be the first one in the file.
+            records.truncate(DATA_HEADER_BYTES as u64)?;
+        }
+        if digest_final <= DATA_HEADER_BYTES as u64 {
+            // The first persist was cut short before the digest index, which is written last.
+            for idx in 0..epoch_idx.len() as u64 {
+                let pos = epoch_idx.load(idx)?;
+                let digest = records.fetch(pos)?.digest();
+                record_digests
+                    .save(digest.into(), pos)
+                    .map_err(|e| EpochDbError::IndexAppend(format!("record digest: {e}")))?;
+            }
+            record_digests.set_data_file_length(records.file_len());
+        }
         Ok(())
     }
 
@@ -1212,7 +1228,7 @@ impl Inner {
             cert_digests.set_data_file_length(certs.file_len());
         }
 
-        Self::heal_records(&mut records, &mut epoch_idx, &record_digests)?;
+        Self::heal_records(&mut records, &mut epoch_idx, &mut record_digests)?;
         Self::heal_certs(&mut certs, &cert_digests)?;
 
         // Derive start_epoch from the first stored record if present.
-- 
2.43.0


From dde8e894029b81be15998f7ec32d4cf1fecf5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 08/32] fix: index epoch certificates that a crash left
 unindexed instead of dropping them

A digest that already reached the index claimed the dropped certificate: it was never saved again, and the
certificate written at its position was returned for it.
---
 crates/storage/src/epoch_records.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index 238272b..966771b 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1165,15 +1165,32 @@ impl Inner {
         Ok(())
     }
 
-    /// Truncate the certs file back to a consistent state.
+    /// Bring the certs file and its index back to a consistent state.
+    ///
+    /// Certs that reached the data file but not the digest index are indexed here (a damaged tail
+    /// is dropped). They can not be truncated: part of the index may have been written, and a digest
+    /// left in there would claim a cert that is gone (so it would never be saved again) or, later,
+    /// whichever one is written at its position.
     fn heal_certs(
         certs: &mut Pack<EpochCertificate>,
-        cert_digests: &HdxIndex,
+        cert_digests: &mut HdxIndex,
     ) -> Result<(), EpochDbError> {
         let certs_len = certs.file_len();
-        let digest_final = cert_digests.data_file_length();
-        if certs_len > digest_final && digest_final > DATA_HEADER_BYTES as u64 {
-            certs.truncate(digest_final)?;
+        let mut pos = cert_digests.data_file_length().max(DATA_HEADER_BYTES as u64);
+        if certs_len > pos {
+            while pos < certs_len {
+                let (Ok(size), Ok(cert)) = (certs.record_size(pos), certs.fetch(pos)) else {
+                    break;
+                };
+                cert_digests
+                    .save(cert.epoch_hash.into(), pos)
+                    .map_err(|e| EpochDbError::IndexAppend(format!("cert digest: {e}")))?;
+                pos += size as u64;
+            }
+            if pos < certs_len {
+                certs.truncate(pos)?;
+            }
+            cert_digests.set_data_file_length(pos);
         }
         Ok(())
     }
@@ -1229,7 +1246,7 @@ impl Inner {
         }
 
         Self::heal_records(&mut records, &mut epoch_idx, &mut record_digests)?;
-        Self::heal_certs(&mut certs, &cert_digests)?;
+        Self::heal_certs(&mut certs, &mut cert_digests)?;
 
         // Derive start_epoch from the first stored record if present.
         let start_epoch = if !epoch_idx.is_empty() {
-- 
2.43.0


From e1b5eb8de407729c80628660d2f9a478d59c4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 09/32] fix: keep serving cached values whose transaction could
 not be written

---
 crates/storage/src/layered_db.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/layered_db.rs b/crates/storage/src/layered_db.rs
index 9f952b5..c948153 100644
--- a/crates/storage/src/layered_db.rs
+++ b/crates/storage/src/layered_db.rs
@@ -172,6 +172,9 @@ fn end_txn<'a, DB: Database>(
             if let Some(mem_db) = mem_db {
                 committed_inserts.drain(..).for_each(|insert| insert.clear_insert_mem(mem_db));
             }
+        } else {
+            // These values will never reach the disk, a later commit must not clear them either.
+            committed_inserts.clear();
         }
         Some(committed)
     } else {
@@ -258,14 +261,16 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                 if let Some((txn, _)) = &mut txn {
                     // A failed staged write is dropped from the physical txn while the value stays
                     // in the authoritative mem layer, so it is a durability gap: latch it (#975).
-                    if let Err(e) = ins.insert_txn(txn) {
+                    let staged = ins.insert_txn(txn);
+                    if let Err(e) = &staged {
                         tracing::error!(target: "layered_db_runner", "DB TXN Insert {}: {e}", ins.name());
                         commit_failed = true;
                     }
                     // The retained insert exists only to clear the cache-mode mirror once the
                     // txn commits. A full-memory DB (mem_db == None) keeps everything in memory
                     // forever, so retaining here would leak a clone of every value ever written.
-                    if mem_db.is_some() {
+                    // An insert that failed is not on disk: the mirror must keep serving it.
+                    if staged.is_ok() && mem_db.is_some() {
                         committed_inserts.push(ins);
                     }
                 } else {
-- 
2.43.0


From 479fcb082416b141e17daab83e2a2696a4137995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 10/32] fix: accept only the canonical encoding of a
 certificate's signer bitmap

---
 crates/types/src/serde.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/types/src/serde.rs b/crates/types/src/serde.rs
index 87d9034..7dcb94e 100644
--- a/crates/types/src/serde.rs
+++ b/crates/types/src/serde.rs
@@ -8,9 +8,35 @@ use serde::{
 };
 use serde_with::{DeserializeAs, SerializeAs};
 
+/// First bytes of a bitmap in the roaring format without run containers, the only variant written
+/// here.
+const NO_RUN_CONTAINER_COOKIE: [u8; 4] = 12346_u32.to_le_bytes();
+
 /// Serde interface to RoaringBitmap according to the roaring bitmap on-disk standard.
 pub(crate) struct RoaringBitmapSerde;
 
+/// Read a bitmap from exactly the bytes that would be written for it.
+///
+/// A run container can be empty, which is read but cannot be written so that it is read again, and
+/// a few bytes of it are expanded to thousands of values, so that variant is rejected before
+/// anything is allocated. Trailing bytes and containers that are out of order or repeated are
+/// rejected as well.
+fn read_canonical(bytes: &[u8]) -> std::io::Result<roaring::RoaringBitmap> {
+    let invalid = |why: &str| std::io::Error::new(std::io::ErrorKind::InvalidData, why);
+    if !bytes.starts_with(&NO_RUN_CONTAINER_COOKIE) {
+        return Err(invalid("unknown bitmap variant"));
+    }
+    let bitmap = roaring::RoaringBitmap::deserialize_from(bytes)?;
+    let bitmap = roaring::RoaringBitmap::from_sorted_iter(bitmap.iter())
+        .map_err(|_| invalid("containers out of order"))?;
+    let mut canonical = Vec::with_capacity(bytes.len());
+    bitmap.serialize_into(&mut canonical)?;
+    if canonical != bytes {
+        return Err(invalid("not the canonical encoding"));
+    }
+    Ok(bitmap)
+}
+
 impl SerializeAs<roaring::RoaringBitmap> for RoaringBitmapSerde {
     fn serialize_as<S>(source: &roaring::RoaringBitmap, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -49,7 +75,7 @@ impl<'de> DeserializeAs<'de, roaring::RoaringBitmap> for RoaringBitmapSerde {
             where
                 E: Error,
             {
-                roaring::RoaringBitmap::deserialize_from(v).map_err(|e| {
+                read_canonical(v).map_err(|e| {
                     Error::custom(format!("roaring bitmap deserialization failed: {e:?}"))
                 })
             }
-- 
2.43.0


From b6e9df6cc07dd8e0b5eb548c8940d9c72d104d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 11/32] fix: replace configuration files as a whole when they
 are overwritten

---
 crates/config/src/traits.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/config/src/traits.rs b/crates/config/src/traits.rs
index ea8ffc6..83fcad1 100644
--- a/crates/config/src/traits.rs
+++ b/crates/config/src/traits.rs
@@ -3,6 +3,7 @@
 use eyre::{Context, ContextCompat};
 use serde::{de::DeserializeOwned, Serialize};
 use std::{
+    ffi::OsString,
     fs::{self, File, OpenOptions},
     io::{ErrorKind::NotFound, Read, Write},
     path::{Path, PathBuf},
@@ -109,14 +110,28 @@ pub trait ConfigTrait {
             serde_yaml::to_string(&cfg).with_context(|| "Failed to serialize config to yaml")?
         };
 
+        // Written aside and renamed into place: a crash or a full disk leaves the previous
+        // settings, never an empty or partial file that may load as if it set nothing.
+        let path = &fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+        let name = path.file_name().with_context(|| format!("{path:?} is not a file"))?;
+        let mut tmp_name = OsString::from(".");
+        tmp_name.push(name);
+        tmp_name.push(".tmp");
+        let tmp = path.with_file_name(tmp_name);
         let mut f = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path)
+            .open(&tmp)
             .with_context(|| "Failed to open configuration file using OpenOptions")?;
+        if let Ok(previous) = fs::metadata(path) {
+            f.set_permissions(previous.permissions())
+                .with_context(|| "Failed to keep the configuration file's permissions")?;
+        }
 
         f.write_all(s.as_bytes()).with_context(|| "Failed to write configuration file")?;
+        f.sync_all().with_context(|| "Failed to sync configuration file")?;
+        fs::rename(&tmp, path).with_context(|| "Failed to replace configuration file")?;
         Ok(())
     }
 }
-- 
2.43.0


From f54c591aade263181d3fb7660a64215a97e1997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 12/32] fix: count the minimum length of a ban from the penalty
 that caused it

---
 crates/network-libp2p/src/peers/score.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/network-libp2p/src/peers/score.rs b/crates/network-libp2p/src/peers/score.rs
index a92d289..acd9b85 100644
--- a/crates/network-libp2p/src/peers/score.rs
+++ b/crates/network-libp2p/src/peers/score.rs
@@ -149,8 +149,9 @@ impl Score {
         if !already_banned && self.is_banned() {
             let config = global_score_config();
 
-            // ban the peer for at least BANNED_BEFORE_DECAY seconds
-            self.last_updated += config.banned_before_decay();
+            // ban the peer for at least BANNED_BEFORE_DECAY seconds, counted from now: the last
+            // update may be long ago (e.g. scores of validators are not updated)
+            self.last_updated = Instant::now() + config.banned_before_decay();
         }
     }
 
-- 
2.43.0


From cc2b0e939965934a8e8e84266ca2039d09faa8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 13/32] fix: do not record a peer as banned when its score only
 calls for a disconnect

---
 crates/network-libp2p/src/peers/all_peers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index 718d796..86bd6c4 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -282,10 +282,13 @@ impl AllPeers {
                 }
                 Reputation::Disconnected => {
                     if peer.connection_status().is_connected_or_dialing() {
+                        // the score is short of a ban: heartbeats only lift bans by score, so a
+                        // peer (and its IPs) recorded as banned here would never be unbanned
                         self.update_connection_status(
                             peer_id,
-                            NewConnectionStatus::Disconnecting { banned: true },
-                        )
+                            NewConnectionStatus::Disconnecting { banned: false },
+                        );
+                        PeerAction::Disconnect
                     } else {
                         warn!(target: "peer-manager", ?peer_id, ?prior_reputation, "process_penalty for disconnected peer");
                         self.update_connection_status(peer_id, NewConnectionStatus::Disconnected)
-- 
2.43.0


From ea791c91a08110e56989664420f74471a471b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:00 +0000
Subject: [PATCH 14/32] fix: refuse gateway deadlines of zero at start instead
 of failing every request

---
 bin/worker-gateway/src/cli.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bin/worker-gateway/src/cli.rs b/bin/worker-gateway/src/cli.rs
index 6b54782..c08c614 100644
--- a/bin/worker-gateway/src/cli.rs
+++ b/bin/worker-gateway/src/cli.rs
@@ -263,6 +263,20 @@ impl Cli {
             ensure_not_gateway(self.listen_addr, &upstream.rpc_url)?;
             ensure_not_gateway(self.listen_addr, &upstream.readiness_url)
         })?;
+        // Zero is no deadline here: the poller cannot tick every zero seconds (it would panic), and
+        // a zero timeout expires before any readiness probe, upstream request, or header read.
+        [
+            ("--readiness-poll-interval", self.readiness_poll_interval),
+            ("--readiness-poll-timeout", self.readiness_poll_timeout),
+            ("--upstream-connect-timeout", self.upstream_connect_timeout),
+            ("--upstream-request-timeout", self.upstream_request_timeout),
+            ("--header-read-timeout", self.header_read_timeout),
+        ]
+        .into_iter()
+        .try_for_each(|(flag, duration)| {
+            eyre::ensure!(!duration.is_zero(), "{flag} must be longer than zero");
+            Ok(())
+        })?;
         let max_connection_duration = resolve_optional_duration(self.max_connection_duration);
         // The longest a single request stays live from the gateway's own point
         // of view: up to `header_read_timeout` reading the head before the
-- 
2.43.0


From d446fabd46e48605f92d1a41479aa2f27b6f38fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 15/32] fix: return an upstream's redirect to the client
 instead of following it

---
 bin/worker-gateway/src/app.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/worker-gateway/src/app.rs b/bin/worker-gateway/src/app.rs
index 5bb6a59..32bc6eb 100644
--- a/bin/worker-gateway/src/app.rs
+++ b/bin/worker-gateway/src/app.rs
@@ -66,8 +66,10 @@ pub(crate) async fn run(settings: Settings) -> eyre::Result<()> {
     );
 
     // Dedicated clients: the proxy enforces connect + per-request deadlines; the
-    // poller bounds each probe with its own tokio timeout.
+    // poller bounds each probe with its own tokio timeout. A redirect is a reply like
+    // any other: it goes back to the client, never on to a host that is no upstream.
     let proxy_client = Client::builder()
+        .redirect(reqwest::redirect::Policy::none())
         .connect_timeout(upstream_connect_timeout)
         .timeout(upstream_request_timeout)
         .build()?;
-- 
2.43.0


From f16a0b7b6d4fd7e52fa26f389e4290e4138eff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 16/32] fix: find the final reputation scores however long ago
 they were committed

---
 crates/storage/src/consensus_pack.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 70ca809..8e4612c 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -1277,7 +1277,9 @@ impl Inner {
     fn read_latest_commit_with_final_reputation_scores(
         &mut self,
     ) -> Result<Option<CommittedSubDag>, PackError> {
-        let iter = self.consensus_pos_idx.rev_iter(1000)?;
+        // The schedule stays in force until the next final scores, however many commits later: stopping
+        // early would fall back to the default schedule, which other nodes do not use.
+        let iter = self.consensus_pos_idx.rev_iter(self.consensus_pos_idx.len())?;
         for pos in iter {
             let pos = pos?;
             let commit = self.data.fetch(pos.consensus_header)?.into_consensus()?.sub_dag;
-- 
2.43.0


From 3c861449c8fb674f83aa9405b7fc4600b585c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 17/32] fix: keep the final number of a stored epoch when
 another record for it is ignored

---
 crates/storage/src/epoch_records.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index 966771b..6f6876f 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -488,9 +488,8 @@ impl EpochRecordDb {
         if epoch > finals_len {
             return Err(EpochDbError::EpochOutOfOrder(finals_len as u32, epoch as u32));
         }
-        if epoch < finals_len {
-            finals[epoch] = number;
-        } else {
+        // A record that is already stored is kept, so its number is too.
+        if epoch == finals_len {
             finals.push(number);
         }
         Ok(())
-- 
2.43.0


From 5aacfe1302ca5d02be31877931f269825e34fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 18/32] fix: return an epoch record by digest only if it has
 that digest

---
 crates/storage/src/epoch_records.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index 6f6876f..1d1528b 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1376,7 +1376,8 @@ impl Inner {
 
     fn record_by_digest(&mut self, digest: EpochDigest) -> Option<EpochRecord> {
         let pos = self.record_digests.load(digest.into()).ok()?;
-        self.records.fetch(pos).ok()
+        // After a crash the index can hold digests of records that were dropped, at positions used again.
+        self.records.fetch(pos).ok().filter(|record| record.digest() == digest)
     }
 
     /// Raw fetch of the certificate stored under `digest`; collapses EVERY storage failure
@@ -1416,11 +1417,7 @@ impl Inner {
     }
 
     fn contains_record_digest(&mut self, digest: EpochDigest) -> bool {
-        if let Ok(pos) = self.record_digests.load(digest.into()) {
-            pos < self.records.file_len()
-        } else {
-            false
-        }
+        self.record_by_digest(digest).is_some()
     }
 
     fn latest_record(&mut self) -> Option<EpochRecord> {
-- 
2.43.0


From 0a68e4f704d06026df2426d518278e46e0bfc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 19/32] fix: a node that joins mid-epoch does not propose with
 genesis parents

---
 crates/consensus/primary/src/proposer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/consensus/primary/src/proposer.rs b/crates/consensus/primary/src/proposer.rs
index ed5005a..bb61155 100644
--- a/crates/consensus/primary/src/proposer.rs
+++ b/crates/consensus/primary/src/proposer.rs
@@ -185,7 +185,6 @@ impl<DB: Database> Proposer<DB> {
         task_spawner: TaskSpawner,
     ) -> Self {
         let rx_shutdown = config.shutdown().subscribe();
-        let genesis = Certificate::genesis(config.committee());
         // create min/max delay intervals
         let min_delay_interval = tokio::time::interval(config.parameters().min_header_delay);
         let max_delay_interval = tokio::time::interval(config.parameters().max_header_delay);
@@ -215,6 +214,16 @@ impl<DB: Database> Proposer<DB> {
             .filter(|round| *round > consensus_bus.app().primary_round())
             .map_or(0, |round| round.saturating_sub(1));
 
+        // The genesis certificates are the parents for round 1 only. A node that (re)joins in the
+        // middle of an epoch proposes above the round it already advanced to and must wait for
+        // that round's certificates: peers reject a later header with genesis parents, and it uses
+        // up the round.
+        let last_parents = if recovered_round == 0 && consensus_bus.app().primary_round() > 0 {
+            Vec::new()
+        } else {
+            Certificate::genesis(config.committee())
+        };
+
         Self {
             authority_id,
             committee: config.committee().clone(),
@@ -229,7 +238,7 @@ impl<DB: Database> Proposer<DB> {
             consensus_bus,
             proposer_store: config.node_storage().clone(),
             round: recovered_round,
-            last_parents: genesis,
+            last_parents,
             last_leader: None,
             digests: VecDeque::with_capacity(2 * config.parameters().max_header_num_of_batches),
             proposed_headers: BTreeMap::new(),
-- 
2.43.0


From 9e3da7b32fcd30c0d24955c1b281315fc2c9d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 20/32] fix: re-propose only the current round's header after
 the delay

---
 crates/consensus/primary/src/proposer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/consensus/primary/src/proposer.rs b/crates/consensus/primary/src/proposer.rs
index bb61155..e90cafb 100644
--- a/crates/consensus/primary/src/proposer.rs
+++ b/crates/consensus/primary/src/proposer.rs
@@ -959,7 +959,14 @@ impl<DB: Database> Proposer<DB> {
                 max_delay_timed_out = false;
                 min_delay_timed_out = false;
             } else if should_repropose_header {
-                if let Ok(Some(last_proposed)) = self.proposer_store.get_last_proposed() {
+                // Only the header of the current round is worth sending again. An older one (the
+                // node has advanced past its round, or it is left from another epoch) cannot help
+                // the node make progress, and may have been committed already.
+                let last_proposed =
+                    self.proposer_store.get_last_proposed().ok().flatten().filter(|header| {
+                        header.epoch() == self.committee.epoch() && header.round() == self.round
+                    });
+                if let Some(last_proposed) = last_proposed {
                     warn!(target: "primary::proposer", interval=?self.max_delay_interval.period(), "re-proposing last header after max delay interval expired for round {}", self.round);
                     let (tx, rx) = oneshot::channel();
                     let consensus_bus = self.consensus_bus.clone();
-- 
2.43.0


From 2a31617cbed6c7f7f1f8fb08ca8c9bcf2ef5948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 21/32] fix: accept a certificate once when it is delivered
 again while underway

---
 .../consensus/primary/src/state_sync/cert_manager.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/consensus/primary/src/state_sync/cert_manager.rs b/crates/consensus/primary/src/state_sync/cert_manager.rs
index c1dd33d..afdef30 100644
--- a/crates/consensus/primary/src/state_sync/cert_manager.rs
+++ b/crates/consensus/primary/src/state_sync/cert_manager.rs
@@ -92,6 +92,16 @@ where
                 return Err(CertManagerError::UnverifiedSignature(digest));
             }
 
+            // skip certificates that were already accepted
+            //
+            // NOTE: the validator checks storage before it forwards single certificates, but the
+            // same certificate can be on its way here more than once (several peers deliver it at
+            // the same time) and fetched certificates are not checked at all. Only this task
+            // writes certificates, so this is the place to ensure each is accepted once.
+            if self.config.node_storage().contains(&digest)? {
+                continue;
+            }
+
             // check pending status
             if self.pending.is_pending(&digest) {
                 // track error for caller that at least one cert is pending
-- 
2.43.0


From 9c4f7f42ffda46ce0855268fa7afa7fc09bfab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 22/32] fix: a certificate request above the last round does
 not overflow

---
 crates/storage/src/stores/certificate_store.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/stores/certificate_store.rs b/crates/storage/src/stores/certificate_store.rs
index 1e0955c..5d81d09 100644
--- a/crates/storage/src/stores/certificate_store.rs
+++ b/crates/storage/src/stores/certificate_store.rs
@@ -425,7 +425,11 @@ impl<DB: Database> CertificateStore for DB {
         origin: &AuthorityIdentifier,
         round: Round,
     ) -> StoreResult<Option<Round>> {
-        let key = (origin.clone(), round + 1);
+        // no round is bigger than the maximum, which a peer's request may name
+        let Some(next_round) = round.checked_add(1) else {
+            return Ok(None);
+        };
+        let key = (origin.clone(), next_round);
         if let Some(((name, round), _)) = self.skip_to::<CertificateDigestByOrigin>(&key)?.next() {
             if &name == origin {
                 return Ok(Some(round));
-- 
2.43.0


From 9f88906e4b007178aeb0b4d3fb6868563985349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:10 +0000
Subject: [PATCH 23/32] fix: tell waiting readers of a certificate only once it
 is stored

---
 crates/storage/src/stores/certificate_store.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/stores/certificate_store.rs b/crates/storage/src/stores/certificate_store.rs
index 5d81d09..936d9f4 100644
--- a/crates/storage/src/stores/certificate_store.rs
+++ b/crates/storage/src/stores/certificate_store.rs
@@ -141,8 +141,6 @@ fn save_cert<TX: DbTxMut>(
     let key = (certificate.origin().clone(), certificate.round());
     txn.insert::<CertificateDigestByOrigin>(&key, &digest)?;
 
-    NOTIFY_SUBSCRIBERS.notify(&digest, certificate);
-
     Ok(())
 }
 
@@ -181,6 +179,8 @@ impl<DB: Database> CertificateStore for DB {
         save_cert(&mut txn, id, &certificate)?;
 
         txn.commit()?;
+        // only notify once stored- the commit could have failed
+        NOTIFY_SUBSCRIBERS.notify(&id, &certificate);
         gc_rounds(self, round)?;
         Ok(())
     }
@@ -194,6 +194,7 @@ impl<DB: Database> CertificateStore for DB {
     ) -> StoreResult<()> {
         let mut txn = self.write_txn()?;
         let mut round = 0;
+        let mut saved = Vec::new();
         for certificate in certificates {
             let digest = certificate.digest();
             round = max(round, certificate.round());
@@ -201,9 +202,14 @@ impl<DB: Database> CertificateStore for DB {
                 tracing::error!("Failed to write certificate for {digest} due to error {e}.");
                 return Err(e);
             }
+            saved.push((digest, certificate));
         }
 
         txn.commit()?;
+        // only notify once stored- the commit could have failed
+        for (digest, certificate) in saved {
+            NOTIFY_SUBSCRIBERS.notify(&digest, certificate);
+        }
         gc_rounds(self, round)?;
         Ok(())
     }
-- 
2.43.0


From f0da7cd538a394e7f4a30f5af3d7db4a7f7c285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:40 +0000
Subject: [PATCH 24/32] fix: a certificate lost in a crash can be saved in its
 archive again

---
 crates/storage/src/certificate_pack.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/storage/src/certificate_pack.rs b/crates/storage/src/certificate_pack.rs
index 41aebf3..db76fca 100644
--- a/crates/storage/src/certificate_pack.rs
+++ b/crates/storage/src/certificate_pack.rs
@@ -317,8 +317,9 @@ impl Inner {
 
     fn save(&mut self, cert: &Certificate) -> Result<(), PackError> {
         let digest = B256::from_slice(cert.digest().as_ref());
-        // Idempotent: skip if already present.
-        if self.digest_idx.load(digest).is_ok() {
+        // Idempotent: skip if already present (after a crash the index can hold digests of
+        // certificates that were lost).
+        if self.contains(cert.digest()) {
             return Ok(());
         }
         let position = self.data.append(cert).map_err(|e| PackError::Append(e.to_string()))?;
@@ -330,11 +331,7 @@ impl Inner {
     }
 
     fn contains(&mut self, digest: HeaderDigest) -> bool {
-        if let Ok(pos) = self.digest_idx.load(B256::from_slice(digest.as_ref())) {
-            pos < self.data.file_len()
-        } else {
-            false
-        }
+        self.get(digest).is_some()
     }
 
     fn get(&mut self, digest: HeaderDigest) -> Option<Certificate> {
-- 
2.43.0


From 1ff5a49f7425bc94f09c6cd709671f8ed628fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 25/32] fix: refuse a decoded sub dag without leader and a
 committee of less than two instead of panicking

---
 crates/types/src/committee.rs      | 4 ++++
 crates/types/src/primary/output.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/types/src/committee.rs b/crates/types/src/committee.rs
index 9290759..94418e5 100644
--- a/crates/types/src/committee.rs
+++ b/crates/types/src/committee.rs
@@ -285,6 +285,10 @@ impl<'de> Deserialize<'de> for Committee {
         D: serde::Deserializer<'de>,
     {
         let mut inner = CommitteeInner::deserialize(deserializer)?;
+        // `load` panics on these: bytes from a peer must not be able to
+        if inner.authorities.values().map(|a| a.protocol_key()).collect::<BTreeSet<_>>().len() < 2 {
+            return Err(serde::de::Error::custom("committee size must be larger than 1"));
+        }
         inner.load();
         Ok(Self { inner: Arc::new(inner) })
     }
diff --git a/crates/types/src/primary/output.rs b/crates/types/src/primary/output.rs
index 45c225d..0d610df 100644
--- a/crates/types/src/primary/output.rs
+++ b/crates/types/src/primary/output.rs
@@ -350,6 +350,10 @@ impl<'de> Deserialize<'de> for CommittedSubDag {
         D: serde::Deserializer<'de>,
     {
         let inner = CommittedSubDagInner::deserialize(deserializer)?;
+        // every sub dag ends with its leader; bytes from a peer may claim otherwise
+        if inner.headers.is_empty() {
+            return Err(serde::de::Error::custom("committed sub dag has no leader"));
+        }
         Ok(Self { inner: Arc::new(inner) })
     }
 }
-- 
2.43.0


From c4a86625a7e816d1dbf03d918c250952bf78fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:29 +0000
Subject: [PATCH 26/32] fix: an import cut off by a crash does not block later
 imports of its epoch

---
 crates/storage/src/consensus.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index d2651a3..732e36b 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -339,6 +339,7 @@ impl ConsensusChain {
         base_path: PathBuf,
         committee_zero: Committee,
     ) -> Result<ConsensusChain, ConsensusChainError> {
+        Self::recover_interrupted_imports(&base_path)?;
         let latest_consensus = LatestConsensus::new(&base_path)?;
         // If we have a pack for the last epoch open it so we can read data early.
 
@@ -647,6 +648,22 @@ impl ConsensusChain {
         Ok((Box::new(stream), end))
     }
 
+    /// Clean up after an import that a prior run did not finish.
+    ///
+    /// A leftover `import-*` directory must go: it holds the mark of an import in progress, which
+    /// would still count if this process has the id of the prior one (usual in a container).
+    fn recover_interrupted_imports(base_path: &Path) -> io::Result<()> {
+        let Ok(entries) = std::fs::read_dir(base_path) else { return Ok(()) };
+        for entry in entries.flatten() {
+            let name = entry.file_name();
+            let Some(name) = name.to_str() else { continue };
+            if name.starts_with(IMPORT_PREFIX) {
+                std::fs::remove_dir_all(entry.path())?;
+            }
+        }
+        Ok(())
+    }
+
     /// Remove any leftover `staging-*` directories under `base_path` (stale from a prior run).
     fn remove_all_staging_dirs(base_path: &Path) {
         if let Ok(entries) = std::fs::read_dir(base_path) {
@@ -1466,6 +1483,9 @@ impl From<EpochDbError> for ConsensusChainError {
     }
 }
 
+/// Start of the names of the directories packs are imported to, the epoch follows.
+const IMPORT_PREFIX: &str = "import-";
+
 /// Lock to prevent races when creating ImportPath's.
 static IMPORT_PATH_LOCK: Mutex<()> = Mutex::new(());
 
@@ -1479,7 +1499,7 @@ impl ImportPath {
     /// Returns None if this process is already importing for this epoch.
     fn new(base_path: &Path, epoch: Epoch) -> io::Result<Option<Self>> {
         // Store our files out of the way while we import so we don't use them until ready.
-        let path = base_path.join(format!("import-{epoch}"));
+        let path = base_path.join(format!("{IMPORT_PREFIX}{epoch}"));
         let pid = std::process::id();
         let proc_path = path.join(format!("{pid}.inproc"));
         // Grab the single lock so we can avoid races on the off chance we try to
@@ -1501,7 +1521,7 @@ impl ImportPath {
     /// True if this epoch is already being streamed.
     fn is_streaming(base_path: &Path, epoch: Epoch) -> bool {
         let pid = std::process::id();
-        let path = base_path.join(format!("import-{epoch}")).join(format!("{pid}.inproc"));
+        let path = base_path.join(format!("{IMPORT_PREFIX}{epoch}")).join(format!("{pid}.inproc"));
         path.exists()
     }
 
-- 
2.43.0


From 0629730f5915604e677561006a922a435e28ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:29 +0000
Subject: [PATCH 27/32] fix: a crash while an imported epoch is installed does
 not lose the one it replaces

---
 crates/storage/src/consensus.rs | 35 +++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 732e36b..18830a2 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -556,15 +556,22 @@ impl ConsensusChain {
                 let _install = self.pack_install.lock().await;
                 let replace_current = self.current_pack.lock().epoch() == epoch;
                 drop(pack);
-                // Make sure we don't have any cruft in the final dir.
-                if std::fs::exists(&base_dir).unwrap_or_default() {
-                    // If this exists it is incomplete (see check at start of function).
-                    // This remove will leave a tiny window before the rename where it is
-                    // not available.  This may produce errors that should be handled correctly if
-                    // so.
-                    let _ = std::fs::remove_dir_all(&base_dir);
+                // Move anything in the final dir aside until the new pack is in its place.  If
+                // this exists it is incomplete (see check at start of function), but it may be
+                // the pack this node has to start from, see `recover_interrupted_imports`.
+                // This will leave a tiny window before the rename where it is
+                // not available.  This may produce errors that should be handled correctly if
+                // so.
+                let replaced_dir = self.base_path.join(format!("{REPLACED_PREFIX}{epoch}"));
+                let replaces = std::fs::exists(&base_dir).unwrap_or_default();
+                if replaces {
+                    let _ = std::fs::remove_dir_all(&replaced_dir);
+                    std::fs::rename(&base_dir, &replaced_dir)?;
                 }
                 let rename_err = std::fs::rename(&path_base_dir, &base_dir);
+                if replaces && rename_err.is_err() {
+                    let _ = std::fs::rename(&replaced_dir, &base_dir);
+                }
                 // Invalidate the cache AFTER the rename so a concurrent get_static that
                 // missed the cache and opened FDs on the old (now-unlinked) inode cannot
                 // leave a stale entry behind for other callers — any entry cached during
@@ -577,6 +584,7 @@ impl ConsensusChain {
                 // import as complete. A failed fsync here means the import is not durable, so
                 // return the error and let it be retried by re-streaming.
                 fsync_directory(&self.base_path)?;
+                let _ = std::fs::remove_dir_all(&replaced_dir);
                 if replace_current {
                     // Do this directly, using get_static() will short circuit on the old pack...
                     *self.current_pack.lock() = ConsensusPack::open_static(&self.base_path, epoch)?;
@@ -651,7 +659,8 @@ impl ConsensusChain {
     /// Clean up after an import that a prior run did not finish.
     ///
     /// A leftover `import-*` directory must go: it holds the mark of an import in progress, which
-    /// would still count if this process has the id of the prior one (usual in a container).
+    /// would still count if this process has the id of the prior one (usual in a container). A
+    /// pack that was moved aside is put back unless the one that replaces it is installed.
     fn recover_interrupted_imports(base_path: &Path) -> io::Result<()> {
         let Ok(entries) = std::fs::read_dir(base_path) else { return Ok(()) };
         for entry in entries.flatten() {
@@ -659,6 +668,13 @@ impl ConsensusChain {
             let Some(name) = name.to_str() else { continue };
             if name.starts_with(IMPORT_PREFIX) {
                 std::fs::remove_dir_all(entry.path())?;
+            } else if let Some(epoch) = name.strip_prefix(REPLACED_PREFIX) {
+                let base_dir = base_path.join(format!("epoch-{epoch}"));
+                if base_dir.exists() {
+                    let _ = std::fs::remove_dir_all(entry.path());
+                } else {
+                    std::fs::rename(entry.path(), base_dir)?;
+                }
             }
         }
         Ok(())
@@ -1486,6 +1502,9 @@ impl From<EpochDbError> for ConsensusChainError {
 /// Start of the names of the directories packs are imported to, the epoch follows.
 const IMPORT_PREFIX: &str = "import-";
 
+/// Start of the names of the directories packs are moved to while an import replaces them.
+const REPLACED_PREFIX: &str = "replaced-";
+
 /// Lock to prevent races when creating ImportPath's.
 static IMPORT_PATH_LOCK: Mutex<()> = Mutex::new(());
 
-- 
2.43.0


From 78d2ed528e1c924818b90ddb1789c48054b293af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 28/32] fix: the pack validator does not call packs valid that
 an import refuses

---
 crates/storage/src/pack_validate.rs | 62 ++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/crates/storage/src/pack_validate.rs b/crates/storage/src/pack_validate.rs
index 1701cee..efd6c39 100644
--- a/crates/storage/src/pack_validate.rs
+++ b/crates/storage/src/pack_validate.rs
@@ -33,14 +33,16 @@ use std::{
     path::Path,
 };
 
-use tn_types::{BlockHash, ConsensusHeader, ConsensusHeaderDigest, Epoch, EpochRecord};
+use tn_types::{
+    BlockHash, Committee, ConsensusHeader, ConsensusHeaderDigest, Epoch, EpochRecord,
+};
 
 use crate::{
     archive::{
         error::fetch::FetchError,
         pack::{Pack, PackCompression},
     },
-    consensus_pack::{verify_epoch_meta, PackError, PackRecord, PACK_VERSION},
+    consensus_pack::{verify_epoch_meta, EpochMeta, PackError, PackRecord, PACK_VERSION},
 };
 
 /// Classification of a referenced-but-missing batch digest.
@@ -222,8 +224,6 @@ pub fn validate_pack_file(
         }
     }
 
-    let start_consensus_number = epoch_meta.start_consensus_number;
-
     // Expected `parent_hash` of the *next* consensus header. `None` = "no anchor, skip the check":
     // a bare file with no previous record cannot verify its first header's parent.
     let expected_parent: Option<ConsensusHeaderDigest> = if epoch == 0 {
@@ -237,19 +237,20 @@ pub fn validate_pack_file(
     };
 
     if pack.version() == 0 {
-        verify_v0_data(&mut iter, epoch, expected_parent, start_consensus_number, issues)
+        verify_v0_data(&mut iter, &epoch_meta, epoch, expected_parent, issues)
     } else {
-        verify_v1_data(&mut iter, epoch, expected_parent, start_consensus_number, issues)
+        verify_v1_data(&mut iter, &epoch_meta, epoch, expected_parent, issues)
     }
 }
 
 fn verify_v0_data(
     iter: &mut impl Iterator<Item = Result<PackRecord, FetchError>>,
+    epoch_meta: &EpochMeta,
     epoch: Epoch,
     mut expected_parent: Option<ConsensusHeaderDigest>,
-    start_consensus_number: u64,
     mut issues: Vec<PackIssue>,
 ) -> Result<PackValidationReport, PackError> {
+    let start_consensus_number = epoch_meta.start_consensus_number;
     let mut batch_count: u64 = 0;
     let mut consensus_count: u64 = 0;
     let mut first_consensus_number: Option<u64> = None;
@@ -284,6 +285,7 @@ fn verify_v0_data(
                 let number = consensus_header.number;
                 first_consensus_number.get_or_insert(number);
                 last_consensus_number = Some(number);
+                check_header_epoch(&consensus_header, epoch, &epoch_meta.committee, &mut issues);
 
                 // 0. Sequential numbering, mirroring `Inner::save_consensus_output`. The expected
                 // number is position-based: `start + (headers seen before this one)`. Because the
@@ -369,11 +371,12 @@ fn verify_v0_data(
 /// performed in [`close_v1_group`].
 fn verify_v1_data(
     iter: &mut impl Iterator<Item = Result<PackRecord, FetchError>>,
+    epoch_meta: &EpochMeta,
     epoch: Epoch,
     mut expected_parent: Option<ConsensusHeaderDigest>,
-    start_consensus_number: u64,
     mut issues: Vec<PackIssue>,
 ) -> Result<PackValidationReport, PackError> {
+    let start_consensus_number = epoch_meta.start_consensus_number;
     let mut batch_count: u64 = 0;
     let mut consensus_count: u64 = 0;
     let mut first_consensus_number: Option<u64> = None;
@@ -387,7 +390,7 @@ fn verify_v1_data(
     // The currently open consensus header and the batch digests seen since it, in arrival order
     // (a `Vec`, not a set, because the v1 ordering check needs the sequence). A batch that appears
     // before the first header — a malformed pack the real writer never produces and the importer
-    // rejects outright — is attributed to the first group; an acceptable diagnostic.
+    // rejects outright — is in no group.
     let mut open_header: Option<Box<ConsensusHeader>> = None;
     let mut collected: Vec<BlockHash> = Vec::new();
 
@@ -409,13 +412,16 @@ fn verify_v1_data(
                 // A new header means the previous group's batches have all arrived — close it.
                 if let Some(prev) = open_header.take() {
                     close_v1_group(&prev, &collected, &mut issues);
-                    collected.clear();
+                } else {
+                    report_leading_batches(consensus_header.number, &collected, &mut issues);
                 }
+                collected.clear();
 
                 consensus_count += 1;
                 let number = consensus_header.number;
                 first_consensus_number.get_or_insert(number);
                 last_consensus_number = Some(number);
+                check_header_epoch(&consensus_header, epoch, &epoch_meta.committee, &mut issues);
 
                 // Sequential numbering and chain continuity, identical to `verify_v0_data`. See the
                 // comments there for why `expected` is position-based and why the trailing header
@@ -444,6 +450,8 @@ fn verify_v1_data(
     // Close the final group at EOF.
     if let Some(prev) = open_header.take() {
         close_v1_group(&prev, &collected, &mut issues);
+    } else {
+        report_leading_batches(start_consensus_number, &collected, &mut issues);
     }
 
     Ok(finalize_report(
@@ -458,6 +466,40 @@ fn verify_v1_data(
     ))
 }
 
+/// Report what the importer refuses a header for besides its number, parent and batches: an epoch
+/// other than the pack's, and an author with batches who is not in the pack's committee.
+fn check_header_epoch(
+    header: &ConsensusHeader,
+    epoch: Epoch,
+    committee: &Committee,
+    issues: &mut Vec<PackIssue>,
+) {
+    let number = header.number;
+    let leader_epoch = header.sub_dag.leader_epoch();
+    if leader_epoch != epoch {
+        issues.push(PackIssue::EpochMetaMismatch {
+            detail: format!("consensus {number} is of epoch {leader_epoch}"),
+        });
+    }
+    if header.sub_dag.num_primary_batches() > 0 {
+        for sub_header in header.sub_dag.headers() {
+            if committee.authority(sub_header.author()).is_none() {
+                issues.push(PackIssue::EpochMetaMismatch {
+                    detail: format!(
+                        "consensus {number} has a header of {}, who is not in the committee",
+                        sub_header.author()
+                    ),
+                });
+            }
+        }
+    }
+}
+
+/// Report the batches found ahead of the first header of a v1 pack.
+fn report_leading_batches(number: u64, batches: &[BlockHash], issues: &mut Vec<PackIssue>) {
+    issues.extend(batches.iter().map(|digest| PackIssue::ExtraBatch { number, digest: *digest }));
+}
+
 /// Resolve a closed v1 group: append the batch-presence, extra-batch and ordering issues for the
 /// header whose group just ended. `collected` is the group's batch digests in arrival (file) order.
 ///
-- 
2.43.0


From 78b6a13f60ec54ccc166258b1386af923fb677fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 29/32] fix: the timeout of an import covers the header of the
 stream

---
 crates/storage/src/consensus_pack.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 8e4612c..53ee88e 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -918,9 +918,14 @@ impl Inner {
     ) -> Result<Self, PackError> {
         let base_dir = path.as_ref().join(format!("epoch-{epoch}"));
         let _ = create_dir_synced(&base_dir);
-        let mut stream_iter = AsyncPackIter::<PackRecord, R>::open(stream, epoch as u64)
-            .await
-            .map_err(|e| PackError::ReadError(e.to_string()))?;
+        // A sender that stalls in the file header is given up like one that stalls in a record.
+        let mut stream_iter = tokio::time::timeout(
+            timeout,
+            AsyncPackIter::<PackRecord, R>::open(stream, epoch as u64),
+        )
+        .await
+        .map_err(|_| PackError::ReadError("timeout".to_string()))?
+        .map_err(|e| PackError::ReadError(e.to_string()))?;
         let mut data = Pack::open(
             base_dir.join(Self::DATA_NAME),
             epoch as u64,
-- 
2.43.0


From cf414889481a34fbe0115fc9d64c374a61f19661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 30/32] fix: check the subgroup of a signature in
 verify_secure_bytes

Without it anyone can alter a genuine signature into another one that verifies.
---
 crates/types/src/crypto/bls_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/types/src/crypto/bls_signature.rs b/crates/types/src/crypto/bls_signature.rs
index 1d355d8..20e318a 100644
--- a/crates/types/src/crypto/bls_signature.rs
+++ b/crates/types/src/crypto/bls_signature.rs
@@ -256,7 +256,7 @@ impl ProtocolSignature for BlsSignature {
     }
 
     fn verify_secure_bytes(&self, value: &[u8], public_key: &BlsPublicKey) -> bool {
-        self.verify(false, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
+        self.verify(true, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
     }
 }
 
-- 
2.43.0


From 87d38e1b69e239804f4e43dd9531947809c48e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:17 +0000
Subject: [PATCH 31/32] fix: a full batch of many transactions fits into a sync
 frame

---
 crates/consensus/worker/src/network/handle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/consensus/worker/src/network/handle.rs b/crates/consensus/worker/src/network/handle.rs
index b4c37e9..1506e08 100644
--- a/crates/consensus/worker/src/network/handle.rs
+++ b/crates/consensus/worker/src/network/handle.rs
@@ -38,9 +38,13 @@ const BATCH_STREAM_TIMEOUT: Duration = Duration::from_secs(5);
 /// this, so the requester stops waiting and tries the next peer.
 const SYNC_ACK_TIMEOUT: Duration = Duration::from_secs(5);
 
-/// Headroom added to `max_batch_size` for the sync-frame envelope (the `SyncFrame`
-/// enum tag and the `Data` length prefix) when bounding a decoded frame.
-const SYNC_FRAME_OVERHEAD: usize = 1024;
+/// Headroom added to `max_batch_size` when bounding a decoded frame.
+///
+/// `max_batch_size` bounds the sum of the transaction bytes only. A frame also carries the sync-frame
+/// envelope (the `SyncFrame` enum tag and the `Data` length prefix), the other fields of the batch, and
+/// a length prefix of one to three bytes for every transaction: at most one byte for each 64 bytes of
+/// transactions, which is less than 16 KiB for the largest batch.
+const SYNC_FRAME_OVERHEAD: usize = 32 * 1024;
 
 /// Maximum number of retries through the full peer list in `request_batches()`.
 const MAX_BATCH_REQUEST_RETRIES: usize = 3;
-- 
2.43.0


From bfad11ddd0fdb4031f439091222cf98f3c89f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:27 +0000
Subject: [PATCH 32/32] fix: count a removed kad record only when one was
 stored

Removing a key without a record decremented the record count, so the
store accepted more records than its configured maximum.
---
 crates/network-libp2p/src/kad.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/network-libp2p/src/kad.rs b/crates/network-libp2p/src/kad.rs
index 173bc66..e28419f 100644
--- a/crates/network-libp2p/src/kad.rs
+++ b/crates/network-libp2p/src/kad.rs
@@ -484,11 +484,18 @@ impl<DB: Database> RecordStore for KadStore<DB> {
 
     fn remove(&mut self, k: &RecordKey) {
         let key = self.key_to_hash(k);
-        if match self.kad_type {
-            NetworkType::Primary => self.db.remove::<KadRecords>(&key),
-            NetworkType::Worker(_) => self.db.remove::<KadWorkerRecords>(&key),
+        // Removing a key without a record also succeeds; only count what was stored.
+        let stored = match self.kad_type {
+            NetworkType::Primary => self.db.get::<KadRecords>(&key),
+            NetworkType::Worker(_) => self.db.get::<KadWorkerRecords>(&key),
         }
-        .is_ok()
+        .is_ok_and(|record| record.is_some());
+        if stored
+            && match self.kad_type {
+                NetworkType::Primary => self.db.remove::<KadRecords>(&key),
+                NetworkType::Worker(_) => self.db.remove::<KadWorkerRecords>(&key),
+            }
+            .is_ok()
         {
             // Record was removed so dec num_records. Saturate to match the eviction
             // siblings (`evict_expired_records`): on MDBX `db.remove` returns `Ok` even
-- 
2.43.0

