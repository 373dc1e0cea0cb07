From 61d8d38eba0c0b1d63a90ff395779b21ed689dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 01/22] fix: only treat the live objects as matching when the
 lists have the same length

A write to more or fewer channels than the active list, sharing its first
entries, was taken to match it and written without metadata, so its samples
were indexed under the wrong channels.
---
 src/index/writing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..f8241ca 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,7 +14,9 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
+        let live_matches = if !self.active_objects.is_empty()
+            && self.active_objects.len() == objects.len()
+        {
             self.active_objects
                 .iter()
                 .zip(objects.iter())
-- 
2.43.0


From 093c635d6d4aecbe81db4181820114a17f8cd160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 02/22] fix: write metadata when the live objects change their
 data format

The same channels written with another sample count or type were taken to
need no metadata, so the samples were indexed with the previous format.
---
 src/file/file_writer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..52f8baa 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -129,7 +129,13 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
-        let meta = if matches_live {
+        // The metadata can only be left out if nothing about the live objects changes.
+        let metadata_unchanged = matches_live
+            && channels
+                .iter()
+                .all(|(_, raw_index)| *raw_index == RawDataIndex::MatchPrevious);
+
+        let meta = if metadata_unchanged {
             None
         } else {
             let objects: Vec<ObjectMetaData> = channels
-- 
2.43.0


From 445417e177943fa3df9150dcd9955823e0ee0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 03/22] fix: do not parse metadata in segments without any

Raw data of a segment without metadata was parsed as an object list, so files
holding one (as written by repeating a write) could not be opened again.
---
 src/io/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..28d8cda 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,17 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From 01c78918c53a102ca423e57bf35f76c6354046e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 04/22] fix: refuse a write without values before writing
 anything

The segment was written to the file and only then refused by the index, which
left a file that could not be opened again.
---
 src/file/file_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 52f8baa..dc95248 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -115,6 +115,9 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        if values.is_empty() {
+            return Err(TdmsError::ZeroLengthDataBlock);
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From 02ad129c5dd75d3cef8cb3d242a7f5c9c08dce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 05/22] fix: timestamps take 16 bytes in the file

Sample counts and positions of timestamp channels were computed from 8.
---
 src/io/data_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..d84a6d9 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -79,7 +79,7 @@ impl DataType {
             DataType::ExtendedFloatWithUnit => 16,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
-- 
2.43.0


From aeb5ea173d5a9a6cdefcaa4f9d8b1f0ed13697af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 06/22] fix: extended floats take 10 bytes in the file

Segment offsets, sample counts and positions were computed from the 16 bytes
of the type in memory, while 10 bytes are written and read per value.
---
 src/io/data_types/extended.rs | 3 +++
 src/io/data_types/mod.rs      | 4 ++--
 src/raw_data/write.rs         | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..2583e97 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,9 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    // The size in the file rather than in memory.
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index d84a6d9..791c610 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,10 +73,10 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
             DataType::Timestamp => 16,
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..c6e5a54 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.len() * D::SIZE_BYTES
     }
 }
 
-- 
2.43.0


From 069d729e6526e241846f7a612acdfa215c86bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 07/22] fix: type codes of double and extended floats with unit

The format assigns 0x1A and 0x1B; files using them were refused as unknown.
---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 791c610..14c7c4d 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From 7f958b24618c5175729d6531fefe650644e62c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 08/22] fix: append directly after the last segment

---
 src/file/mod.rs  | 10 ++++++++--
 src/index/mod.rs |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..923ba71 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -179,8 +179,14 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     pub fn writer(
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
-        //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        // New segments go directly after the last one. Anything behind that is the
+        // remains of an incomplete segment, and if the file ends before it the data
+        // of the last segment is incomplete so nothing can be added.
+        let end_of_segments = self.index.next_segment_start();
+        if self.file.seek(SeekFrom::End(0))? < end_of_segments {
+            return Err(TdmsError::EndOfFile);
+        }
+        self.file.seek(SeekFrom::Start(end_of_segments))?;
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..ee5989d 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -176,6 +176,11 @@ impl Index {
         })
     }
 
+    /// Get the position directly after the last segment.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
+
     pub fn get_data_block(&self, index: usize) -> Option<&DataBlock> {
         self.data_blocks.get(index)
     }
-- 
2.43.0


From 96cc405aa7b6487ec94f05c0cbb0d7563e4cbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 09/22] fix: count the samples read from a block per channel

---
 src/file/channel_reader.rs | 62 ++++++++++++++++++++++++++------------
 src/raw_data/mod.rs        |  8 +++++
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..3c0191a 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -38,6 +38,10 @@ impl ChannelProgress {
         self.samples_read >= self.samples_target
     }
 
+    fn samples_remaining(&self) -> usize {
+        self.samples_target.saturating_sub(self.samples_read)
+    }
+
     fn add_samples(&mut self, samples: usize) {
         self.samples_read += samples;
     }
@@ -169,26 +173,40 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            // The channels can have different amounts of data in the block.
+            let block_samples = location
+                .channel_indexes
+                .iter()
+                .zip(channel_progress.iter())
+                .map(|(plan, progress)| match plan {
+                    Some(plan) => {
+                        let available = block
+                            .channel_samples(plan.index)?
+                            .saturating_sub(plan.samples_to_skip);
+                        Ok(available.min(progress.samples_remaining() as u64) as usize)
+                    }
+                    None => Ok(0),
+                })
+                .collect::<Result<Vec<usize>, TdmsError>>()?;
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &block_samples,
+                );
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
-            };
+                    get_block_read_data(&location, output, &channel_progress, &block_samples);
+                block.read(&mut self.file, &mut channels_to_read)?;
+            }
 
             // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
+            for (samples, progress) in block_samples.into_iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(samples);
             }
 
             if all_channels_complete(&channel_progress) {
@@ -205,18 +223,22 @@ fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    block_samples: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(block_samples.iter())
+        .filter_map(|(((plan, output), progress), &samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => {
+                    Some((plan.index, &mut output[progress.samples_read..][..samples]))
+                }
                 _ => None,
             }
         })
@@ -228,20 +250,22 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    block_samples: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(block_samples.iter())
+        .filter_map(|(((plan, output), progress), &samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..samples],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..0f03804 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -186,6 +186,14 @@ impl DataBlock {
         Ok(chunk_count)
     }
 
+    /// Calculate the number of samples the channel has in the complete chunks of this block.
+    pub fn channel_samples(&self, channel_index: usize) -> Result<u64, TdmsError> {
+        self.channels[channel_index]
+            .number_of_values
+            .checked_mul(self.number_of_chunks()? as u64)
+            .ok_or(TdmsError::ChunkSizeOverflow)
+    }
+
     /// Read the data from the block for the channels specified into the output slices.
     ///
     /// We assume all channels in the block have the same length and so return the maximum
-- 
2.43.0


From db35da440d5b5e979168fa316186cc93145aa67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 10/22] fix: track skips per channel in contiguous blocks

---
 src/raw_data/contigious_multi_channel_read.rs | 176 +++++-------------
 src/raw_data/records.rs                       |  25 +++
 2 files changed, 76 insertions(+), 125 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..e9bbb94 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -57,50 +57,10 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for channel_skip in channels.block_skips_mut() {
+            *channel_skip = start_sample;
         }
-
-        Ok(length)
+        self.read_sub_blocks(channels)
     }
 
     /// Read the data from the block with per-channel skip amounts.
@@ -111,83 +71,44 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         skip_amounts: &[u64],
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
+        for (channel_skip, skip) in channels.block_skips_mut().zip(skip_amounts) {
+            *channel_skip = *skip;
+        }
+        self.read_sub_blocks(channels)
+    }
 
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
+    /// Read all of the sub-blocks until the outputs are full, using the skip amounts in the plan.
+    fn read_sub_blocks<D: TdmsStorageType>(
+        &mut self,
+        mut channels: RecordPlan<D>,
+    ) -> Result<usize, TdmsError> {
+        self.reader.to_file_position(self.block_start)?;
 
-        // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip / sub_block_length)
-            .collect();
-        let remainder_skips: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip % sub_block_length)
-            .collect();
+        let sub_block_size = channels.block_size() as u64;
+        let total_sub_blocks = self.block_size.get() / sub_block_size;
 
         let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
-
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
+        let mut sub_block_idx = 0u64;
+
+        while let Some(sub_blocks_to_skip) = channels.skip_sub_blocks() {
+            if sub_blocks_to_skip > 0 {
+                // No channel reads from these so go straight to the first that is needed.
+                sub_block_idx = sub_block_idx.saturating_add(sub_blocks_to_skip);
+                if sub_block_idx >= total_sub_blocks {
+                    break;
                 }
-                length += self.read_sub_block(&mut channels)?;
+                self.reader
+                    .to_file_position(self.block_start + sub_block_idx * sub_block_size)?;
+            } else if sub_block_idx >= total_sub_blocks {
+                break;
             }
+            length += self.read_sub_block(&mut channels)?;
+            sub_block_idx += 1;
         }
 
         Ok(length)
     }
 
-    fn calculate_skip_for_this_block(
-        sub_block_idx: u64,
-        blocks_to_skip: u64,
-        remainder_skip: u64,
-    ) -> u64 {
-        if sub_block_idx == blocks_to_skip {
-            // First sub-block to read for this channel - use remainder
-            remainder_skip
-        } else if sub_block_idx > blocks_to_skip {
-            // Subsequent sub-blocks - no skip
-            0
-        } else {
-            // Should not happen if any_channel_reads is correct
-            0
-        }
-    }
-
     fn read_sub_block<D: TdmsStorageType>(
         &mut self,
         channels: &mut RecordPlan<'_, D>,
@@ -196,26 +117,21 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
 
         for read_instruction in channels.read_instructions().iter_mut() {
             match &mut read_instruction.plan {
-                RecordEntryPlan::Read {
-                    output,
-                    block_skip: skip_first_samples,
-                } => {
-                    let skip = (*skip_first_samples).min(read_instruction.length as u64) as usize;
+                RecordEntryPlan::Read { output, block_skip } => {
+                    let skip = (*block_skip).min(read_instruction.length as u64);
+                    // What is left applies to the following sub-blocks.
+                    *block_skip -= skip;
 
-                    let samples_to_read = read_instruction.length.saturating_sub(skip);
+                    let samples_to_read = read_instruction.length - skip as usize;
 
                     // Skip samples by seeking
-                    if skip > 0 {
-                        let skip_bytes = skip as i64 * D::SIZE_BYTES as i64;
-                        self.reader.move_position(skip_bytes)?;
-                    }
+                    self.skip_values(skip, D::SIZE_BYTES as u64)?;
 
                     // Read the remaining samples
                     length = self.read_sequential_samples(output, samples_to_read)?;
                 }
                 RecordEntryPlan::Skip(bytes) => {
-                    let skip_bytes = *bytes * read_instruction.length as i64;
-                    self.reader.move_position(skip_bytes)?;
+                    self.skip_values(read_instruction.length as u64, *bytes as u64)?;
                 }
             };
         }
@@ -236,12 +152,22 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         }
         // Skip to end of unread samples.
         let unread_samples = samples_to_read - length;
-        if unread_samples > 0 {
-            self.reader
-                .move_position(unread_samples as i64 * D::SIZE_BYTES as i64)?;
-        }
+        self.skip_values(unread_samples as u64, D::SIZE_BYTES as u64)?;
         Ok(length)
     }
+
+    /// Move past the values, which may be more bytes than a single move can express.
+    fn skip_values(&mut self, count: u64, value_size: u64) -> Result<(), TdmsError> {
+        let mut bytes = count
+            .checked_mul(value_size)
+            .ok_or(TdmsError::ChunkSizeOverflow)?;
+        while bytes > 0 {
+            let step = bytes.min(i64::MAX as u64);
+            self.reader.move_position(step as i64)?;
+            bytes -= step;
+        }
+        Ok(())
+    }
 }
 
 #[cfg(test)]
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..747ec38 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -92,6 +92,31 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         })
     }
 
+    /// Take the sub-blocks off the skips that every channel which is still to be read skips
+    /// completely and return how many those are.
+    ///
+    /// `None` means that all of the outputs are full.
+    pub fn skip_sub_blocks(&mut self) -> Option<u64> {
+        let to_skip = self
+            .0
+            .iter()
+            .filter_map(|entry| match &entry.plan {
+                RecordEntryPlan::Read { output, block_skip } if output.len() > 0 => {
+                    Some(block_skip.checked_div(entry.length as u64).unwrap_or(0))
+                }
+                _ => None,
+            })
+            .min()?;
+
+        for entry in self.0.iter_mut() {
+            if let RecordEntryPlan::Read { block_skip, .. } = &mut entry.plan {
+                *block_skip =
+                    block_skip.saturating_sub(to_skip.saturating_mul(entry.length as u64));
+            }
+        }
+        Some(to_skip)
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From 5ebf7f2ff390dce5a4f7f01fcff6c0792c6c3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 11/22] fix: keep reading interleaved rows while a channel
 still skips

---
 .../interleaved_multi_channel_read.rs         | 48 ++++++++-----------
 src/raw_data/records.rs                       | 33 ++++++++-----
 2 files changed, 43 insertions(+), 38 deletions(-)

diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..6460bb2 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -46,39 +46,35 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         mut channels: RecordPlan<D>,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
-        let total_row_count = self.block_size.get() / channels.row_size() as u64;
-
-        // Find minimum skip (we can skip entire rows up to this point)
-        let min_skip = channels.block_skips().min().unwrap_or(0);
-
-        // Skip entire rows
-        if min_skip > 0 {
-            let skip_bytes = min_skip as i64 * channels.row_size() as i64;
-            self.reader.move_position(skip_bytes)?;
-        }
-
-        // Calculate the remaining skip per channel
-        for skip in channels.block_skips_mut() {
-            *skip = skip.saturating_sub(min_skip);
-        }
-
-        // Read rows, discarding samples for channels that still need to skip
-        let rows_to_process = total_row_count.saturating_sub(min_skip);
+        let row_size = channels.row_size() as u64;
+        let total_row_count = self.block_size.get() / row_size;
 
         let mut samples_read = 0;
-        for row in 0..rows_to_process {
-            let mut any_values_read = false;
+        let mut row = 0u64;
+        while let Some(rows_to_skip) = channels.skip_rows() {
+            // Skip the rows that no channel reads from.
+            if rows_to_skip > 0 {
+                row = row.saturating_add(rows_to_skip);
+                if row >= total_row_count {
+                    break;
+                }
+                self.reader
+                    .to_file_position(self.block_start + row * row_size)?;
+            } else if row >= total_row_count {
+                break;
+            }
+
+            // Read the row, discarding samples for channels that still need to skip
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
                     RecordEntryPlan::Read { output, block_skip } => {
                         let read_value = self.reader.read_value()?;
 
                         // Only write if we've skipped enough for this channel
-                        if row >= *block_skip
-                            && let Some(value) = output.next()
-                        {
+                        if *block_skip > 0 {
+                            *block_skip -= 1;
+                        } else if let Some(value) = output.next() {
                             *value = read_value;
-                            any_values_read = true;
                         }
                     }
                     RecordEntryPlan::Skip(bytes) => {
@@ -86,9 +82,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                     }
                 };
             }
-            if !any_values_read {
-                break;
-            }
+            row += 1;
             samples_read += 1;
         }
 
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 747ec38..abcd675 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -70,17 +70,6 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         &mut self.0[..]
     }
 
-    /// Get the block skips per read channel in the read plan.
-    pub fn block_skips(&self) -> impl Iterator<Item = u64> + '_ {
-        self.0.iter().filter_map(|entry| {
-            if let RecordEntryPlan::Read { block_skip, .. } = &entry.plan {
-                Some(*block_skip)
-            } else {
-                None
-            }
-        })
-    }
-
     /// Get the block skips as mut.
     pub fn block_skips_mut(&mut self) -> impl Iterator<Item = &mut u64> + '_ {
         self.0.iter_mut().filter_map(|entry| {
@@ -117,6 +106,28 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         Some(to_skip)
     }
 
+    /// Take the rows off the skips that every channel which is still to be read skips and return
+    /// how many those are.
+    ///
+    /// `None` means that all of the outputs are full.
+    pub fn skip_rows(&mut self) -> Option<u64> {
+        let to_skip = self
+            .0
+            .iter()
+            .filter_map(|entry| match &entry.plan {
+                RecordEntryPlan::Read { output, block_skip } if output.len() > 0 => {
+                    Some(*block_skip)
+                }
+                _ => None,
+            })
+            .min()?;
+
+        for skip in self.block_skips_mut() {
+            *skip = skip.saturating_sub(to_skip);
+        }
+        Some(to_skip)
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From 7b3759084ab5f09b5d100aacc02fb04199ab4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 12/22] fix: apply the skips of a read to their own channels

---
 src/raw_data/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 0f03804..cc0f89d 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -331,6 +331,9 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
+        // The skip amounts are applied in the order of the channels in the block.
+        channels_to_read.sort_by_key(|channel| channel.channel_index);
+
         // Extract skip amounts first (before mutable borrow)
         let skip_amounts: Vec<u64> = channels_to_read
             .iter()
-- 
2.43.0


From dc3aa5374047ab9e2742f60685a958fdd3ddf311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 13/22] fix: fill every output of a channel requested more than
 once

---
 src/file/channel_reader.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 3c0191a..4fed385 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -136,10 +136,37 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             })
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
-        let start_skips: Vec<u64> = vec![start; channels.len()];
-        let plan = read_plan(&channel_positions[..], &start_skips);
+        // A pass over the file can read each channel into one output only, so a channel which is
+        // requested again is read in a further pass.
+        let mut plans = Vec::new();
+        let mut pending: Vec<usize> = (0..channels.len()).collect();
+        while !pending.is_empty() {
+            let mut pass: Vec<usize> = Vec::new();
+            let mut repeated: Vec<usize> = Vec::new();
+            for index in pending {
+                let path = channels[index].as_ref();
+                if pass.iter().any(|other| channels[*other].as_ref() == path) {
+                    repeated.push(index);
+                } else {
+                    pass.push(index);
+                }
+            }
+            let positions: Vec<&[DataLocation]> =
+                pass.iter().map(|index| channel_positions[*index]).collect();
+            plans.push((read_plan(&positions, &vec![start; pass.len()]), pass));
+            pending = repeated;
+        }
 
-        self.execute_read_plan(plan, output)
+        for (plan, pass) in plans {
+            let mut pass_output: Vec<&mut [D]> = output
+                .iter_mut()
+                .enumerate()
+                .filter(|(index, _)| pass.contains(index))
+                .map(|(_, out_slice)| &mut out_slice[..])
+                .collect();
+            self.execute_read_plan(plan, &mut pass_output)?;
+        }
+        Ok(())
     }
 
     /// Execute a read plan, reading data from blocks into the output slices.
-- 
2.43.0


From 9c3d91c78c6c6c077df1ab6426c96157422cc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 14/22] fix: report a data block start beyond the address range

---
 src/raw_data/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index cc0f89d..6543be8 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -142,8 +142,14 @@ impl DataBlock {
             return Err(TdmsError::NoActiveChannelsInDataBlock);
         }
 
+        let start = segment
+            .raw_data_offset
+            .checked_add(LEAD_IN_BYTES)
+            .and_then(|offset| offset.checked_add(segment_start))
+            .ok_or(TdmsError::SegmentAddressOverflow)?;
+
         Ok(DataBlock {
-            start: segment.raw_data_offset + LEAD_IN_BYTES + segment_start,
+            start,
             length,
             layout,
             channels: active_channels_meta,
-- 
2.43.0


From fa2f37173165c252b4b62c8567f025754fe9fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 15/22] fix: do not overflow the length of channels without a
 data size

---
 src/index/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index ee5989d..24134e8 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -172,7 +172,8 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                // Types without a size can claim any number of samples.
+                .fold(0u64, u64::saturating_add)
         })
     }
 
-- 
2.43.0


From 6bf2c77fd6de2b26d989c33766379342897c052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 16/22] fix: refuse to write string channels, which produced
 unreadable segments

---
 src/file/file_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index dc95248..16a3eb3 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -1,6 +1,6 @@
 use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
-use crate::io::data_types::TdmsStorageType;
+use crate::io::data_types::{DataType, TdmsStorageType};
 use crate::io::writer::TdmsWriter;
 use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
@@ -118,6 +118,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         if values.is_empty() {
             return Err(TdmsError::ZeroLengthDataBlock);
         }
+        // The raw data of strings has a layout of its own which cannot be written yet.
+        if D::NATURAL_TYPE == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From 1ce2497e2cfd3db42cf67aa7659f2570c4203d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 17/22] fix: parse object paths by their quotes so that names
 can contain separators

---
 src/paths.rs | 84 +++++++++++++++++++++-------------------------------
 1 file changed, 34 insertions(+), 50 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..a521f17 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -23,38 +23,45 @@ fn escape_name(name: &str) -> String {
 /// - Ok(Some(group), None): The path is to a group.
 /// - Ok(Some(group), Some(channel)): The path is to a channel.
 fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), TdmsError> {
-    //Simple filter.
-    if !path.starts_with('/') {
-        return Err(TdmsError::InvalidObjectPath(path.to_string()));
-    }
+    parse_levels(path).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string()))
+}
 
+fn parse_levels(path: ObjectPath<'_>) -> Option<(Option<&str>, Option<&str>)> {
     //Early escape for root.
-    if path.len() == 1 {
-        return Ok((None, None));
+    if path == "/" {
+        return Some((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
-        .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
-    let group = invert(parts.next())?;
-    let channel = invert(parts.next())?;
+    let (group, remaining) = parse_name(path)?;
+    if remaining.is_empty() {
+        return Some((Some(group), None));
+    }
 
-    if parts.next().is_some() {
+    let (channel, remaining) = parse_name(remaining)?;
+    if !remaining.is_empty() {
         // There is more than one group or channel in the path.
-        return Err(TdmsError::InvalidObjectPath(path.to_string()));
+        return None;
     }
 
-    Ok((group, channel))
+    Some((Some(group), Some(channel)))
 }
 
-//expects name with quotes and removes the quotes.
-fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
-        return None;
+/// Expects a separator and a name with quotes. Returns the name without the quotes and
+/// what follows it.
+///
+/// The name can contain anything, including separators, except a single quote that
+/// isn't doubled.
+fn parse_name(path: &str) -> Option<(&str, &str)> {
+    let name = path.strip_prefix("/'")?;
+    let mut search_from = 0;
+    loop {
+        let quote = search_from + name[search_from..].find('\'')?;
+        let remaining = &name[quote + 1..];
+        if !remaining.starts_with('\'') {
+            return Some((&name[..quote], remaining));
+        }
+        search_from = quote + 2;
     }
-
-    Some(&name[1..name.len() - 1])
 }
 
 /// Get the group name for the path, if one exists.
@@ -62,10 +69,6 @@ pub fn path_group_name(path: ObjectPath<'_>) -> Option<&str> {
     parse_path(path).ok()?.0
 }
 
-fn invert<T, E>(x: Option<Result<T, E>>) -> Result<Option<T>, E> {
-    x.map_or(Ok(None), |v| v.map(Some))
-}
-
 /// A path to a location in a tdms file.
 ///
 /// These will format the path correctly and turn it into a owned string
@@ -116,17 +119,6 @@ impl PropertyPath {
         self.0.as_ref()
     }
 
-    /// Get the levels of the path structure
-    fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
-    }
-
     /// Get the group name from the path, if there is one.
     ///
     /// Returns None if the path does not contain a group.
@@ -143,7 +135,7 @@ impl PropertyPath {
     /// assert_eq!(channel.group_name(), Some("group"));
     /// ```
     pub fn group_name(&self) -> Option<&str> {
-        self.path_levels().next()
+        path_group_name(&self.0)
     }
 
     /// Get the channel name from the path, if there is one.
@@ -160,15 +152,11 @@ impl PropertyPath {
     /// assert_eq!(channel.channel_name(), Some("channel"));
     /// ```
     pub fn channel_name(&self) -> Option<&str> {
-        self.path_levels().nth(1)
-    }
-
-    fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        parse_path(&self.0).ok()?.1
     }
 
     fn is_channel(&self) -> bool {
-        self.path_depth() == 2
+        self.channel_name().is_some()
     }
 }
 
@@ -188,13 +176,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        parse_path(value)?;
+        // Already in the internal format.
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From 8e29be8f1908848ecfa1106bd9eb59ca9a825001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 18/22] fix: list only the channels of the requested group

---
 src/file/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 923ba71..3b4dddb 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,13 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        paths
+            .filter_map(|path| ChannelPath::try_from(path).ok())
+            .filter(|channel| match group.group_name() {
+                // Doubled quotes in a name let other groups start with the same characters.
+                Some(name) => channel.group_name() == name,
+                None => true,
+            })
     }
 }
 
-- 
2.43.0


From 2d929e8d67a38f0b2664e2e0250309e33ecb0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 19/22] fix: report a failed seek while opening

---
 src/file/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 3b4dddb..9a2f16e 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -5,7 +5,7 @@ mod file_writer;
 
 use std::{
     fs::File,
-    io::{Read, Seek, SeekFrom, Write},
+    io::{ErrorKind, Read, Seek, SeekFrom, Write},
     path::Path,
 };
 
@@ -63,8 +63,11 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<Index, TdmsError> {
         match Segment::read(file) {
             Ok(segment) => {
                 let next_segment = index.add_segment(segment)?;
-                if file.seek(SeekFrom::Start(next_segment)).is_err() {
-                    break;
+                match file.seek(SeekFrom::Start(next_segment)) {
+                    Ok(_) => {}
+                    // No file can have this position so it is behind the end.
+                    Err(e) if e.kind() == ErrorKind::InvalidInput => break,
+                    Err(e) => return Err(e.into()),
                 }
             }
             Err(TdmsError::EndOfFile) => break,
-- 
2.43.0


From dd3dafce0d7cc135b846e5bc2aa01ff86f5945dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 20/22] fix: convert timestamps to and from calendar time
 exactly

---
 src/properties.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index e67d479..6697fcf 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -269,16 +269,41 @@ impl<'a> TryFrom<&'a PropertyValue> for &'a str {
 mod chrono_support {
     use super::*;
     use chrono::{DateTime, Utc};
+    use labview_interop::types::timestamp::{LVTimeError, UNIX_EPOCH_IN_LV_SECONDS_I64};
+
+    const NANOSECONDS_PER_SECOND: u32 = 1_000_000_000;
+
+    /// Convert to calendar time, rounding down to a nanosecond.
+    fn to_chrono(lvtime: LVTime) -> Result<DateTime<Utc>, TdmsError> {
+        let (seconds, fractions) = lvtime.to_parts();
+        // The product of a u64 and a u32 is far below the limit of a u128.
+        let nanoseconds = (u128::from(fractions) * u128::from(NANOSECONDS_PER_SECOND)) >> 64;
+        seconds
+            .checked_sub(UNIX_EPOCH_IN_LV_SECONDS_I64)
+            .and_then(|seconds| DateTime::from_timestamp(seconds, nanoseconds as u32))
+            .ok_or(TdmsError::ChronoDateTimeConversionFailed(
+                LVTimeError::ChronoOutOfRange,
+            ))
+    }
+
+    /// Convert from calendar time, rounding up so the nanoseconds are kept on the way back.
+    fn from_chrono(time: DateTime<Utc>) -> LVTime {
+        let nanoseconds = time.timestamp_subsec_nanos();
+        // A leap second has more than a second's worth of nanoseconds.
+        let seconds = time.timestamp()
+            + UNIX_EPOCH_IN_LV_SECONDS_I64
+            + i64::from(nanoseconds / NANOSECONDS_PER_SECOND);
+        let fractions = (u128::from(nanoseconds % NANOSECONDS_PER_SECOND) << 64)
+            .div_ceil(u128::from(NANOSECONDS_PER_SECOND));
+        LVTime::from_parts(seconds, fractions as u64)
+    }
 
     impl TryFrom<PropertyValue> for DateTime<Utc> {
         type Error = TdmsError;
 
         fn try_from(value: PropertyValue) -> Result<Self, Self::Error> {
             let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_chrono(lvtime)
         }
     }
 
@@ -287,16 +312,13 @@ mod chrono_support {
 
         fn try_from(value: &'a PropertyValue) -> Result<Self, Self::Error> {
             let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_chrono(lvtime)
         }
     }
 
     impl From<DateTime<Utc>> for PropertyValue {
         fn from(value: DateTime<Utc>) -> Self {
-            PropertyValue::Timestamp(value.into())
+            PropertyValue::Timestamp(from_chrono(value))
         }
     }
 
-- 
2.43.0


From f5cb1792d559565c8516932049196a0a45b33aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 21/22] fix: count the raw data of string channels by the total
 size in their index

---
 src/meta_data.rs    |  7 ++++++-
 src/raw_data/mod.rs | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..255b4a0 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -286,10 +286,15 @@ impl TdmsMetaData for RawDataIndex {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                // Strings have no fixed size so their index holds the size of all of them.
+                let total_size_bytes = match data_type {
+                    DataType::TdmsString => Some(reader.read_value()?),
+                    _ => None,
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 6543be8..baf4066 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -17,7 +17,7 @@ use self::{
 use crate::{
     error::TdmsError,
     io::{
-        data_types::TdmsStorageType,
+        data_types::{DataType, TdmsStorageType},
         reader::{BigEndianReader, LittleEndianReader, TdmsReader},
     },
     meta_data::{LEAD_IN_BYTES, RawDataMeta, Segment},
@@ -141,6 +141,14 @@ impl DataBlock {
         if active_channels_meta.is_empty() {
             return Err(TdmsError::NoActiveChannelsInDataBlock);
         }
+        // Rows are made of values of a fixed size.
+        if layout == DataLayout::Interleaved
+            && active_channels_meta
+                .iter()
+                .any(|channel| channel.total_size_bytes.is_some())
+        {
+            return Err(TdmsError::UnsupportedType(DataType::TdmsString));
+        }
 
         let start = segment
             .raw_data_offset
@@ -185,8 +193,9 @@ impl DataBlock {
         let size = self.chunk_size()?;
 
         let chunk_count = match size {
-            ChunkSize::Fixed(0) => 0,
+            ChunkSize::Fixed(0) | ChunkSize::Variable(0) => 0,
             ChunkSize::Fixed(size) => (self.length.get() / size) as usize,
+            ChunkSize::Variable(size) if size > self.length.get() => 0,
             ChunkSize::Variable(_) => 1,
         };
         Ok(chunk_count)
-- 
2.43.0


From 3bbd38d8bfa95d2b526855333664294791a5d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 22/22] fix: skip string channels by their total size and
 refuse to read their values

---
 src/raw_data/records.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index abcd675..c5ccf98 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -4,7 +4,11 @@
 //! This is used to define a read pattern for a data segment and
 //! is used by the data readers to efficiently read the data.
 
-use crate::{error::TdmsError, io::data_types::TdmsStorageType, meta_data::RawDataMeta};
+use crate::{
+    error::TdmsError,
+    io::data_types::{DataType, TdmsStorageType},
+    meta_data::RawDataMeta,
+};
 
 /// An instruction on how to move through the record based on the read instructions.
 ///
@@ -165,9 +169,17 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn build_base_record(channels: &[RawDataMeta]) -> Self {
         let mut plan = Vec::with_capacity(channels.len());
         for channel in channels {
+            let (length, bytes) = match channel.total_size_bytes {
+                // The values differ in size so they can only be passed all at once.
+                Some(total_size) => (1, total_size as i64),
+                None => (
+                    channel.number_of_values as usize,
+                    channel.data_type.size() as i64,
+                ),
+            };
             plan.push(RecordEntry {
-                length: channel.number_of_values as usize,
-                plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+                length,
+                plan: RecordEntryPlan::Skip(bytes),
             })
         }
         Self(plan)
@@ -192,6 +204,10 @@ fn validate_types_match<T: TdmsStorageType>(
     channels: &[RawDataMeta],
 ) -> Result<(), TdmsError> {
     for (output_idx, _) in outputs.iter() {
+        // The raw data of strings has a layout of its own which cannot be read yet.
+        if channels[*output_idx].data_type == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(DataType::TdmsString));
+        }
         if !T::SUPPORTED_TYPES.contains(&channels[*output_idx].data_type) {
             return Err(TdmsError::DataTypeMismatch(
                 channels[*output_idx].data_type,
-- 
2.43.0

