From e07a365d93ee96c383cfee2b7b5108d195bb3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 01/33] fix: Refuse attributes that are too short for their
 (non-)resident header

---
 src/attribute.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..0ccdbe7 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -415,11 +415,18 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        // The attribute must be large enough for its resident or non-resident header.
+        let header_size = if self.is_resident() {
+            mem::size_of::<NtfsResidentAttributeHeader>()
+        } else {
+            mem::size_of::<NtfsNonResidentAttributeHeader>()
+        };
+
         let attribute_length = self.attribute_length() as usize;
-        if attribute_length < ATTRIBUTE_HEADER_SIZE {
+        if attribute_length < header_size {
             return Err(NtfsError::InvalidAttributeLength {
                 position: self.position(),
-                expected: ATTRIBUTE_HEADER_SIZE,
+                expected: header_size,
                 actual: attribute_length,
             });
         }
-- 
2.43.0


From f037a4d6caaba4ec75176fcdcc4b28e824e75c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 02/33] fix: Don't take attributes from beyond the used size of
 the File Record

---
 src/attribute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 0ccdbe7..5ee34ee 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -403,8 +403,10 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
     }
 
     fn validate_attribute_length(&self) -> Result<()> {
+        // An attribute must be entirely contained in the used part of its File Record.
+        // This has already been validated to not exceed the record size.
         let start = self.offset;
-        let end = self.file.record_data().len();
+        let end = self.file.data_size() as usize;
         let remaining_length = (start..end).len();
 
         if remaining_length < ATTRIBUTE_HEADER_SIZE {
@@ -761,6 +763,9 @@ impl<'n, 'f> Iterator for NtfsAttributesRaw<'n, 'f> {
         // Check if this marks the end of the attribute list.
         let start = self.items_range.start;
         let end = start + mem::size_of::<u32>();
+        if end > self.items_range.end {
+            return None;
+        }
         let ty_slice = self.file.record_data().get(start..end)?;
 
         let ty = LittleEndian::read_u32(ty_slice);
-- 
2.43.0


From 14aac930084585106bcfac1a6eb30fd201b62ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 03/33] fix: Report the position of the resident value instead
 of its attribute header

---
 src/attribute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 5ee34ee..8fa8c1c 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -360,7 +360,9 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        let position = self.file.position() + start;
+
+        Ok(NtfsResidentAttributeValue::new(data, position))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From 0ab392f0ebc4ca9c353623692e4ef8d749606b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 04/33] fix: Avoid overflow for an Update Sequence Array at the
 very end of a 64 KiB record

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..915acf6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 37d70ada4af7452c743235056a15d12d45f8ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 05/33] fix: Report the position of the corrupted sector bytes
 in UpdateSequenceNumberMismatch

---
 src/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index 915acf6..3468870 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -69,7 +69,7 @@ impl Record {
             let bytes_to_update = &mut self.data[sector_position..sector_position_end];
             if bytes_to_update != update_sequence_number {
                 return Err(NtfsError::UpdateSequenceNumberMismatch {
-                    position: self.position + array_position,
+                    position: self.position + sector_position,
                     expected: update_sequence_number,
                     actual: (&*bytes_to_update).try_into().unwrap(),
                 });
-- 
2.43.0


From 636f3e07ab2be8ff2fb5fca9a1df84fd9827b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 06/33] fix: Print GUIDs zero-padded

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From 34fc70f81f659d16613b35621128ff528f05af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 07/33] fix: Return an error for a SystemTime that is too late
 for NtfsTime

---
 src/time.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..4e0d78b 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -69,12 +69,22 @@ impl TryFrom<SystemTime> for NtfsTime {
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
         let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
-        let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+        let intervals_since_windows_epoch = duration_since_unix_epoch
+            .as_secs()
+            .checked_mul(INTERVALS_PER_SECOND)
+            .and_then(|intervals| {
+                intervals.checked_add(duration_since_unix_epoch.subsec_nanos() as u64 / 100)
+            })
+            .and_then(|intervals| intervals.checked_add(EPOCH_DIFFERENCE_IN_INTERVALS));
+
+        match intervals_since_windows_epoch {
+            Some(intervals) => Ok(Self(intervals)),
+            None => {
+                // This time is too far in the future to be represented as an `NtfsTime`.
+                // `SystemTimeError` can't be created directly, but comparing against a later time yields one.
+                Err(SystemTime::UNIX_EPOCH.duration_since(st).unwrap_err())
+            }
+        }
     }
 }
 
-- 
2.43.0


From c9db4a2d58a8e7cf2430932c35216248791ed0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 08/33] fix: Don't panic if a read error is followed by a seek
 error

---
 src/error.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..a7b42ce 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,11 +229,12 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
-        if let binrw::error::Error::Io(io_error) = error {
-            Self::Io(io_error)
-        } else {
+        match error {
+            binrw::error::Error::Io(io_error) => Self::Io(io_error),
+            // binrw adds a backtrace if restoring the stream position after a read error fails as well.
+            binrw::error::Error::Backtrace(backtrace) => Self::from(*backtrace.error),
             // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            error => unreachable!("Got a binrw error of unexpected type: {:?}", error),
         }
     }
 }
-- 
2.43.0


From 51a4fa1ab7ca51ae2df1476edd12c71c74d3c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 09/33] fix: Refuse index entries that are shorter than their
 header

---
 src/index_entry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..b1c83df 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,15 @@ where
             });
         }
 
+        // The entry must at least include its own header.
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: INDEX_ENTRY_HEADER_SIZE as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From 3876550de1ef537991a752e1542e7060d3734186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 10/33] fix: Don't read index entries beyond the used size of
 the index node

---
 src/index_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index b1c83df..f895b53 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -352,7 +352,8 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));
+        let slice = &self.data[self.range.clone()];
+        let entry = iter_try!(NtfsIndexEntry::<E>::new(slice, position));
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
-- 
2.43.0


From bda99bf6a03b1847e0c8538f44b3ef63eb799de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 11/33] fix: Refuse an index root with entries starting behind
 their end

---
 src/structured_values/index_root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..982febd 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -145,6 +145,14 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        if entries_range.start > entries_range.end {
+            return Err(NtfsError::InvalidIndexRootEntriesOffset {
+                position: self.position,
+                expected: entries_range.start,
+                actual: entries_range.end,
+            });
+        }
+
         if entries_range.end > self.slice.len() {
             return Err(NtfsError::InvalidIndexRootUsedSize {
                 position: self.position,
-- 
2.43.0


From 067dc6b150aa206119fa57a13d4c285a8e60d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/33] fix: Don't panic on index records with invalid sizes or
 entries offset

---
 src/error.rs        |  6 ++++++
 src/index_record.rs | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index a7b42ce..7b3e402 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -84,6 +84,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but the node only has a used size of {actual} bytes
+    InvalidIndexEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
     /// The NTFS Index Entry at byte position {position:#x} references a data field in the range {range:?}, but the entry only has a size of {size} bytes
     InvalidIndexEntryDataRange {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..854c4dc 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -153,7 +153,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -164,7 +165,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -173,6 +174,15 @@ impl NtfsIndexRecord {
             });
         }
 
+        // The entries must start within that used size.
+        if self.index_entries_offset() > self.index_data_size() {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.record.position(),
+                expected: self.index_entries_offset(),
+                actual: self.index_data_size(),
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From f3f2fc8b26d1e60ddbd47673a2aaaadf78e4fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 13/33] fix: Refuse index record sizes that are too small for
 the headers or too large

---
 src/error.rs        |  7 +++++++
 src/index_record.rs | 17 ++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 7b3e402..e9d9b79 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -102,6 +102,13 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} should have a size of {actual} bytes, but it needs to be between {min} and {max}
+    InvalidIndexRecordSize {
+        position: NtfsPosition,
+        min: u32,
+        max: u32,
+        actual: u32,
+    },
     /// The NTFS index root at byte position {position:#x} indicates that its entries start at offset {expected}, but the index root only has a size of {actual} bytes
     InvalidIndexRootEntriesOffset {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 854c4dc..cc10b95 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -1,7 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
-use core::ops::Range;
+use core::ops::{Range, RangeInclusive};
 
 use alloc::vec;
 use binrw::io::{Read, Seek};
@@ -29,6 +29,12 @@ struct IndexRecordHeader {
 /// Size of all [`IndexNodeHeader`] fields plus some reserved bytes.
 pub(crate) const INDEX_NODE_HEADER_SIZE: usize = 16;
 
+/// An Index Record must be large enough for both headers.
+/// It is never larger than the maximum cluster size of 2 MiB, and larger sizes are denied to prevent
+/// allocating too large buffers.
+const INDEX_RECORD_SIZE_RANGE: RangeInclusive<u32> =
+    INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32..=2097152;
+
 #[repr(C, packed)]
 pub(crate) struct IndexNodeHeader {
     pub(crate) entries_offset: u32,
@@ -66,6 +72,15 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        if !INDEX_RECORD_SIZE_RANGE.contains(&index_record_size) {
+            return Err(NtfsError::InvalidIndexRecordSize {
+                position: data_position,
+                min: *INDEX_RECORD_SIZE_RANGE.start(),
+                max: *INDEX_RECORD_SIZE_RANGE.end(),
+                actual: index_record_size,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
-- 
2.43.0


From 5fea9219982d6036f3d4107339ac8a9b30762909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 14/33] fix: Don't treat Data Runs with a zero VCN delta as
 sparse

---
 src/attribute_value/non_resident.rs | 34 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..6375209 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -7,6 +7,7 @@
 
 use core::iter::FusedIterator;
 use core::mem;
+use core::num::NonZeroU64;
 
 use binrw::io;
 use binrw::io::Cursor;
@@ -400,9 +401,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             self.read_variable_length_signed_integer(&mut cursor, vcn_byte_count)
         ));
 
-        // The VCN may either indicate "real" data or a sparse Data Run.
-        let position = if vcn.value() != 0 {
-            // This Data Run contains "real" data.
+        // A Data Run without a VCN is a sparse Data Run, all others contain "real" data.
+        // Note that the VCN of "real" data may be zero as well (e.g. for data beginning at LCN 0).
+        let position = if vcn_byte_count != 0 {
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
                 NtfsError::InvalidVcnInDataRunHeader {
@@ -411,11 +412,12 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
+            let lcn_position = iter_try!(new_lcn.position(self.ntfs));
+
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            Some(lcn_position.value().map_or(0, NonZeroU64::get))
         } else {
-            // This is a sparse Data Run.
-            NtfsPosition::none()
+            None
         };
 
         // Only advance after having checked for success.
@@ -444,8 +446,9 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
-    position: NtfsPosition,
+    /// This is `None` if this is a "sparse" Data Run.
+    /// Contrary to an [`NtfsPosition`], it may be zero for a Data Run that starts at the very beginning of the filesystem.
+    position: Option<u64>,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
@@ -454,7 +457,7 @@ pub struct NtfsDataRun {
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: Option<u64>, allocated_size: u64) -> Self {
         Self {
             position,
             allocated_size,
@@ -472,10 +475,11 @@ impl NtfsDataRun {
     ///   * The current seek position is outside the valid range, or
     ///   * The Data Run is a "sparse" Data Run
     pub fn data_position(&self) -> NtfsPosition {
-        if self.stream_position <= self.allocated_size() {
-            self.position + self.stream_position
-        } else {
-            NtfsPosition::none()
+        match self.position {
+            Some(position) if self.stream_position <= self.allocated_size() => {
+                NtfsPosition::new(position + self.stream_position)
+            }
+            _ => NtfsPosition::none(),
         }
     }
 
@@ -496,9 +500,9 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
+        let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
+            fs.seek(SeekFrom::Start(position + self.stream_position))?;
             fs.read(work_slice)?
         } else {
             // This is a sparse Data Run.
-- 
2.43.0


From 700552381951b296fd0a3d6e1fd4e4faa8a949ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 15/33] fix: Refuse Data Runs with an unrepresentable end
 position

---
 src/attribute_value/non_resident.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 6375209..2cf9df8 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -413,9 +413,18 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                 }
             ));
             let lcn_position = iter_try!(new_lcn.position(self.ntfs));
+            let start = lcn_position.value().map_or(0, NonZeroU64::get);
+
+            // The end of the Data Run must be representable as well.
+            if start.checked_add(allocated_size).is_none() {
+                return Some(Err(NtfsError::InvalidClusterCountInDataRunHeader {
+                    position: NtfsDataRuns::position(self),
+                    cluster_count,
+                }));
+            }
 
             self.state.previous_lcn = new_lcn;
-            Some(lcn_position.value().map_or(0, NonZeroU64::get))
+            Some(start)
         } else {
             None
         };
-- 
2.43.0


From efb078a47ca2c9242f1fcf0196181117d0c5bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 16/33] fix: Return an error if the filesystem reader ends
 within a Data Run

---
 src/attribute_value/non_resident.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 2cf9df8..39ec911 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -668,7 +668,12 @@ impl StreamState {
         // Perform the actual read.
         let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
         if bytes_read_in_data_run == 0 {
-            return Ok(false);
+            // The Data Run has further data, but the filesystem reader has reached its end.
+            // Don't go on with the next Data Run, as its data belongs to a later position.
+            return Err(NtfsError::Io(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "the filesystem ends within a Data Run",
+            )));
         }
 
         *bytes_read += bytes_read_in_data_run;
-- 
2.43.0


From 7792a0683eaba78481bd7d8c3a1d2f1dba1a1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 17/33] fix: Don't lose bytes, Data Runs, or connected
 attributes if a read fails

---
 .../attribute_list_non_resident.rs            | 88 ++++++++++++-------
 src/attribute_value/non_resident.rs           | 53 +++++++----
 2 files changed, 92 insertions(+), 49 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..13e1fdf 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -94,8 +94,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         };
 
         // Get the state of the `NtfsDataRuns` iterator of that attribute.
-        let data_runs_state = match attribute_state.data_runs_state.take() {
-            Some(data_runs_state) => data_runs_state,
+        // It's only updated on success, so that a subsequent call outputs the same error again.
+        let data_runs_state = match &attribute_state.data_runs_state {
+            Some(data_runs_state) => data_runs_state.clone(),
             None => return Ok(false),
         };
 
@@ -112,13 +113,16 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Do we have a next Data Run? Save that.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                // We have fully iterated this iterator (and hence also the attribute and file).
+                attribute_state.data_runs_state = None;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // We got another Data Run, so serialize the updated `NtfsDataRuns` state for the next iteration.
-        // This step is skipped when we got no Data Run, because it means we have fully iterated this iterator (and hence also the attribute and file).
         attribute_state.data_runs_state = Some(stream_data_runs.into_state());
 
         Ok(true)
@@ -130,7 +134,10 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         // Do we have another connected attribute?
-        let entry = match self.connected_entries.next(fs) {
+        // Only advance `self.connected_entries` after having checked for success.
+        // In case of an error, a subsequent call shall output the same error again (or succeed for a temporary I/O error).
+        let mut connected_entries = self.connected_entries.clone();
+        let entry = match connected_entries.next(fs) {
             Some(entry) => entry,
             None => return Ok(false),
         };
@@ -153,12 +160,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         let mut stream_data_runs = NtfsDataRuns::new(self.ntfs, data, position);
 
         // Get the first Data Run already here to save time and let `data_position` return something meaningful.
-        let stream_data_run = match stream_data_runs.next() {
-            Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
-        };
-        let stream_data_run = stream_data_run?;
-        self.stream_state.set_stream_data_run(Some(stream_data_run));
+        // An attribute without any Data Run is valid and must not keep us from reading the following ones.
+        let stream_data_run = stream_data_runs.next().transpose()?;
+        self.stream_state.set_stream_data_run(stream_data_run);
 
         // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
         let data_runs_state = Some(stream_data_runs.into_state());
@@ -167,6 +171,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
             attribute_offset,
             data_runs_state,
         });
+        self.connected_entries = connected_entries;
 
         Ok(true)
     }
@@ -176,30 +181,19 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
-    fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
-    where
-        T: Read + Seek,
-    {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
-        self.next_attribute(fs)?;
-
-        Ok(())
-    }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    /// Reads until `buf` is full or the end of the value has been reached, updating `bytes_read` after every partial read.
+    fn read_data_runs<T>(
+        &mut self,
+        fs: &mut T,
+        buf: &mut [u8],
+        bytes_read: &mut usize,
+    ) -> Result<()>
     where
         T: Read + Seek,
     {
-        let mut bytes_read = 0usize;
-
-        while bytes_read < buf.len() {
+        while *bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
+            if self.stream_state.read_data_run(fs, buf, bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
                 continue;
             }
@@ -220,7 +214,37 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             }
         }
 
-        Ok(bytes_read)
+        Ok(())
+    }
+
+    /// Rewinds this value reader to the very beginning.
+    fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
+    where
+        T: Read + Seek,
+    {
+        self.connected_entries.attribute_list_entries =
+            Some(self.initial_attribute_list_entries.clone());
+        self.stream_state = StreamState::new(self.len());
+        self.next_attribute(fs)?;
+
+        Ok(())
+    }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            // We must not lose the bytes we already read before the error.
+            // A subsequent call runs into the same error again if it persists.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+            Ok(()) => Ok(bytes_read),
+        }
     }
 
     fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 39ec911..d9a539a 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -110,26 +110,19 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
-    fn rewind(&mut self) -> Result<()> {
-        self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
-        self.next_data_run()?;
-
-        Ok(())
-    }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    /// Reads until `buf` is full or the end of the value has been reached, updating `bytes_read` after every partial read.
+    fn read_data_runs<T>(
+        &mut self,
+        fs: &mut T,
+        buf: &mut [u8],
+        bytes_read: &mut usize,
+    ) -> Result<()>
     where
         T: Read + Seek,
     {
-        let mut bytes_read = 0usize;
-
-        while bytes_read < buf.len() {
+        while *bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
+            if self.stream_state.read_data_run(fs, buf, bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
                 continue;
             }
@@ -144,7 +137,33 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             }
         }
 
-        Ok(bytes_read)
+        Ok(())
+    }
+
+    /// Rewinds this value reader to the very beginning.
+    fn rewind(&mut self) -> Result<()> {
+        self.stream_data_runs = self.data_runs();
+        self.stream_state = StreamState::new(self.len());
+        self.next_data_run()?;
+
+        Ok(())
+    }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            // We must not lose the bytes we already read before the error.
+            // A subsequent call runs into the same error again if it persists.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+            Ok(()) => Ok(bytes_read),
+        }
     }
 
     fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
-- 
2.43.0


From 286c03dc1be2b1214125a2c038f8b041f202f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 18/33] fix: Keep the stream state consistent if a seek fails

---
 .../attribute_list_non_resident.rs            | 55 ++++++++++++-------
 src/attribute_value/non_resident.rs           | 55 ++++++++++++-------
 2 files changed, 70 insertions(+), 40 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 13e1fdf..2219e8b 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -229,30 +229,12 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
 
         Ok(())
     }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
-    where
-        T: Read + Seek,
-    {
-        let mut bytes_read = 0usize;
-
-        match self.read_data_runs(fs, buf, &mut bytes_read) {
-            // We must not lose the bytes we already read before the error.
-            // A subsequent call runs into the same error again if it persists.
-            Err(_) if bytes_read > 0 => Ok(bytes_read),
-            Err(e) => Err(e),
-            Ok(()) => Ok(bytes_read),
-        }
-    }
 
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    /// Moves to the Data Run of the given (optimized) seek position and seeks inside it.
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<()>
     where
         T: Read + Seek,
     {
-        let pos = self.stream_state.optimize_seek(pos, self.len())?;
-
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
                 self.rewind(fs)?;
@@ -289,6 +271,39 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             }
         }
 
+        Ok(())
+    }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            // We must not lose the bytes we already read before the error.
+            // A subsequent call runs into the same error again if it persists.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+            Ok(()) => Ok(bytes_read),
+        }
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        let pos = self.stream_state.optimize_seek(pos, self.len())?;
+
+        // A failed seek must not leave us anywhere in between.
+        let previous = self.clone();
+        if let Err(e) = self.seek_data_runs(fs, pos) {
+            *self = previous;
+            return Err(e);
+        }
+
         match pos {
             SeekFrom::Start(n) => self.stream_state.set_stream_position(n),
             SeekFrom::Current(n) => self
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index d9a539a..eb8c9aa 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -148,30 +148,12 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(())
     }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
-    where
-        T: Read + Seek,
-    {
-        let mut bytes_read = 0usize;
-
-        match self.read_data_runs(fs, buf, &mut bytes_read) {
-            // We must not lose the bytes we already read before the error.
-            // A subsequent call runs into the same error again if it persists.
-            Err(_) if bytes_read > 0 => Ok(bytes_read),
-            Err(e) => Err(e),
-            Ok(()) => Ok(bytes_read),
-        }
-    }
 
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    /// Moves to the Data Run of the given (optimized) seek position and seeks inside it.
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<()>
     where
         T: Read + Seek,
     {
-        let pos = self.stream_state.optimize_seek(pos, self.len())?;
-
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
                 self.rewind()?;
@@ -202,6 +184,39 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             }
         }
 
+        Ok(())
+    }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            // We must not lose the bytes we already read before the error.
+            // A subsequent call runs into the same error again if it persists.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+            Ok(()) => Ok(bytes_read),
+        }
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        let pos = self.stream_state.optimize_seek(pos, self.len())?;
+
+        // A failed seek must not leave us anywhere in between.
+        let previous = self.clone();
+        if let Err(e) = self.seek_data_runs(fs, pos) {
+            *self = previous;
+            return Err(e);
+        }
+
         match pos {
             SeekFrom::Start(n) => self.stream_state.set_stream_position(n),
             SeekFrom::Current(n) => self
-- 
2.43.0


From 0db3a2d579a805d4d789740d6957b715c261533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 19/33] fix: Return zeros beyond the initialized size of a
 non-resident value

---
 src/attribute.rs                              |  9 +++++
 .../attribute_list_non_resident.rs            |  5 +--
 src/attribute_value/non_resident.rs           | 36 ++++++++++++++++---
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 8fa8c1c..f961801 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -288,6 +288,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             data,
             position,
             self.non_resident_value_data_size(),
+            self.non_resident_value_initialized_size(),
         )
     }
 
@@ -312,6 +313,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         LittleEndian::read_u64(&self.file.record_data()[start..])
     }
 
+    fn non_resident_value_initialized_size(&self) -> u64 {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, initialized_size);
+        LittleEndian::read_u64(&self.file.record_data()[start..])
+    }
+
     fn non_resident_value_data_runs_offset(&self) -> u16 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_runs_offset);
@@ -515,6 +522,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             // (remaining ones are set to zero).
             // Fortunately, we are the first attribute :)
             let data_size = self.non_resident_value_data_size();
+            let initialized_size = self.non_resident_value_initialized_size();
 
             let value = NtfsAttributeListNonResidentAttributeValue::new(
                 self.file.ntfs(),
@@ -523,6 +531,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.instance(),
                 self.ty()?,
                 data_size,
+                initialized_size,
             )?;
             Ok(NtfsAttributeValue::AttributeListNonResident(value))
         } else if self.is_resident() {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 2219e8b..f718e6e 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -46,13 +46,14 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         instance: u16,
         ty: NtfsAttributeType,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
         let connected_entries =
             AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -224,7 +225,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state = self.stream_state.rewound();
         self.next_attribute(fs)?;
 
         Ok(())
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index eb8c9aa..8e14397 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -41,9 +41,10 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         data: &'f [u8],
         position: NtfsPosition,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self> {
         let stream_data_runs = NtfsDataRuns::new(ntfs, data, position);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -143,7 +144,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state = self.stream_state.rewound();
         self.next_data_run()?;
 
         Ok(())
@@ -526,6 +527,15 @@ impl NtfsDataRun {
         }
     }
 
+    /// Fills `buf` with zeros up to the remaining length of this Data Run and advances by that number of bytes.
+    pub(crate) fn read_zeros(&mut self, buf: &mut [u8]) -> usize {
+        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        buf[..bytes_to_read].fill(0);
+
+        self.stream_position += bytes_to_read as u64;
+        bytes_to_read
+    }
+
     pub(crate) fn remaining_len(&self) -> u64 {
         self.allocated_size().saturating_sub(self.stream_position)
     }
@@ -578,17 +588,26 @@ pub(crate) struct StreamState {
     stream_position: u64,
     /// Total (used) data size, in bytes.
     data_size: u64,
+    /// Size of the initialized part of the data, in bytes.
+    /// Everything between this and `data_size` reads as zeros, no matter what is stored in the allocated clusters.
+    initialized_size: u64,
 }
 
 impl StreamState {
-    pub(crate) const fn new(data_size: u64) -> Self {
+    pub(crate) const fn new(data_size: u64, initialized_size: u64) -> Self {
         Self {
             stream_data_run: None,
             stream_position: 0,
             data_size,
+            initialized_size,
         }
     }
 
+    /// Returns a fresh state for reading the same value from the very beginning.
+    pub(crate) const fn rewound(&self) -> Self {
+        Self::new(self.data_size, self.initialized_size)
+    }
+
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
@@ -699,8 +718,15 @@ impl StreamState {
         let remaining_buf_len = buf.len() - start;
         let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
 
-        // Perform the actual read.
-        let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
+        // Perform the actual read, but return zeros for everything beyond the initialized size.
+        let remaining_initialized_size = self.initialized_size.saturating_sub(self.stream_position);
+        let bytes_read_in_data_run = if remaining_initialized_size == 0 {
+            data_run.read_zeros(&mut buf[start..end])
+        } else {
+            let initialized_end =
+                start + usize::min(end - start, remaining_initialized_size as usize);
+            data_run.read(fs, &mut buf[start..initialized_end])?
+        };
         if bytes_read_in_data_run == 0 {
             // The Data Run has further data, but the filesystem reader has reached its end.
             // Don't go on with the next Data Run, as its data belongs to a later position.
-- 
2.43.0


From 38facdb7230ee5d06f368640cde4050be6b0d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 20/33] fix: Report the position of the next Data Run after
 reading up to the end of one

---
 .../attribute_list_non_resident.rs            | 12 +++++++-
 src/attribute_value/non_resident.rs           | 30 +++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index f718e6e..67e5650 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -288,7 +288,17 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             // A subsequent call runs into the same error again if it persists.
             Err(_) if bytes_read > 0 => Ok(bytes_read),
             Err(e) => Err(e),
-            Ok(()) => Ok(bytes_read),
+            Ok(()) => {
+                // Let `data_position` return the position of the next byte.
+                // If this fails, the next call runs into the same error again.
+                if self.stream_state.is_data_run_exhausted()
+                    && matches!(self.next_data_run(), Ok(false))
+                {
+                    let _ = self.next_attribute(fs);
+                }
+
+                Ok(bytes_read)
+            }
         }
     }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 8e14397..650a59f 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -201,7 +201,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             // A subsequent call runs into the same error again if it persists.
             Err(_) if bytes_read > 0 => Ok(bytes_read),
             Err(e) => Err(e),
-            Ok(()) => Ok(bytes_read),
+            Ok(()) => {
+                // Let `data_position` return the position of the next byte.
+                // If this fails, the next call runs into the same error again.
+                if self.stream_state.is_data_run_exhausted() {
+                    let _ = self.next_data_run();
+                }
+
+                Ok(bytes_read)
+            }
         }
     }
 
@@ -614,10 +622,11 @@ impl StreamState {
     ///   * The attribute does not have a Data Run, or
     ///   * The current Data Run is a "sparse" Data Run
     pub(crate) fn data_position(&self) -> NtfsPosition {
-        if let Some(stream_data_run) = self.stream_data_run.as_ref() {
-            stream_data_run.data_position()
-        } else {
-            NtfsPosition::none()
+        match self.stream_data_run.as_ref() {
+            Some(stream_data_run) if !self.is_data_run_exhausted() => {
+                stream_data_run.data_position()
+            }
+            _ => NtfsPosition::none(),
         }
     }
 
@@ -626,6 +635,17 @@ impl StreamState {
         self.data_size
     }
 
+    /// Returns whether the current Data Run has been read to its end, but the value goes on in the next one.
+    pub(crate) fn is_data_run_exhausted(&self) -> bool {
+        self.stream_position < self.data_size
+            && self
+                .stream_data_run
+                .as_ref()
+                .map_or(false, |stream_data_run| {
+                    stream_data_run.remaining_len() == 0
+                })
+    }
+
     pub(crate) fn optimize_seek(&self, pos: SeekFrom, data_size: u64) -> Result<SeekFrom> {
         let mut pos = self.simplify_seek(pos, data_size)?;
 
-- 
2.43.0


From d7d5927214a4f683ce81480bffb02b687617d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 21/33] fix: Identify connected attributes by their name and
 lowest VCN

---
 src/attribute.rs                              | 82 ++++++++++++++++---
 .../attribute_list_non_resident.rs            | 29 +++++--
 2 files changed, 90 insertions(+), 21 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index f961801..c9b525e 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -307,6 +307,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         Ok((data, position))
     }
 
+    fn non_resident_value_lowest_vcn(&self) -> Vcn {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, lowest_vcn);
+        Vcn::from(LittleEndian::read_i64(&self.file.record_data()[start..]))
+    }
+
     fn non_resident_value_data_size(&self) -> u64 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_size);
@@ -528,7 +534,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.file.ntfs(),
                 fs,
                 list_entries.clone(),
-                self.instance(),
+                self.name()?,
                 self.ty()?,
                 data_size,
                 initialized_size,
@@ -566,16 +572,16 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 #[derive(Clone, Debug)]
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
+    attribute_list: Option<NtfsAttributeList<'n, 'f>>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    list_skip_info: Option<(u16, NtfsAttributeType)>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
     pub(crate) fn new(file: &'f NtfsFile<'n>) -> Self {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
+            attribute_list: None,
             list_entries: None,
-            list_skip_info: None,
         }
     }
 
@@ -588,6 +594,45 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         NtfsAttributesAttached::new(fs, self)
     }
 
+    /// Checks if the given non-resident attribute of the base File Record has connected attributes.
+    /// If so, this returns an `NtfsAttributeListEntries` iterator where the next call to `next` yields
+    /// the Attribute List entry of the given attribute.
+    fn connected_list_entries<T>(
+        fs: &mut T,
+        attribute_list: &NtfsAttributeList<'n, 'f>,
+        attribute: &NtfsAttribute<'n, 'f>,
+    ) -> Result<Option<NtfsAttributeListEntries<'n, 'f>>>
+    where
+        T: Read + Seek,
+    {
+        let mut list_entries = attribute_list.entries();
+
+        loop {
+            let list_entries_clone = list_entries.clone();
+
+            let entry = match list_entries.next(fs) {
+                Some(entry) => entry?,
+                None => return Ok(None),
+            };
+
+            let is_same_attribute = entry.base_file_reference().file_record_number()
+                == attribute.file.file_record_number()
+                && entry.instance() == attribute.instance()
+                && entry.lowest_vcn().value() == 0;
+            if !is_same_attribute {
+                continue;
+            }
+
+            // Connected attributes directly follow in the Attribute List.
+            let is_connected = match list_entries.next(fs) {
+                Some(next_entry) => next_entry?.lowest_vcn().value() != 0,
+                None => false,
+            };
+
+            return Ok(is_connected.then(|| list_entries_clone));
+        }
+    }
+
     /// See [`Iterator::next`].
     pub fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeItem<'n, 'f>>>
     where
@@ -609,9 +654,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                         Some(Err(e)) => return Some(Err(e)),
                         None => break,
                     };
-                    let entry_instance = entry.instance();
                     let entry_record_number = entry.base_file_reference().file_record_number();
-                    let entry_ty = iter_try!(entry.ty());
 
                     // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
                     if entry_record_number == self.raw_iter.file.file_record_number() {
@@ -619,15 +662,12 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     }
 
                     // Ignore all Attribute List entries that are connected attributes of a previous one.
-                    if let Some((skip_instance, skip_ty)) = self.list_skip_info {
-                        if entry_instance == skip_instance && entry_ty == skip_ty {
-                            continue;
-                        }
+                    // Contrary to the first attribute of a value, they don't begin at VCN 0.
+                    if entry.lowest_vcn().value() != 0 {
+                        continue;
                     }
 
                     // We found an attribute that we want to return.
-                    self.list_skip_info = None;
-
                     let ntfs = self.raw_iter.file.ntfs();
                     let entry_file = iter_try!(entry.to_file(ntfs, fs));
                     let entry_attribute = iter_try!(entry.to_attribute(&entry_file));
@@ -636,7 +676,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     let mut list_entries = None;
                     if !entry_attribute.is_resident() {
                         list_entries = Some(attribute_list_entries_clone);
-                        self.list_skip_info = Some((entry_instance, entry_ty));
                     }
 
                     let item = NtfsAttributeItem {
@@ -654,12 +693,29 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                 let attribute_list =
                     iter_try!(attribute.structured_value::<T, NtfsAttributeList>(fs));
                 self.list_entries = Some(attribute_list.entries());
+                self.attribute_list = Some(attribute_list);
             } else {
+                let mut list_entries = None;
+
+                // If there is an Attribute List, the value of a non-resident attribute may also be split over
+                // this attribute and connected ones in other File Records.
+                if let (Some(attribute_list), false) =
+                    (&self.attribute_list, attribute.is_resident())
+                {
+                    // Ignore this attribute if it is itself connected to one in another File Record.
+                    if attribute.non_resident_value_lowest_vcn().value() != 0 {
+                        continue;
+                    }
+
+                    list_entries =
+                        iter_try!(Self::connected_list_entries(fs, attribute_list, &attribute));
+                }
+
                 let item = NtfsAttributeItem {
                     attribute_file: self.raw_iter.file,
                     attribute_value_file: None,
                     attribute_offset: attribute.offset(),
-                    list_entries: None,
+                    list_entries,
                 };
                 return Some(Ok(item));
             }
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 67e5650..b89feb2 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -7,6 +7,7 @@
 // We have to go down to the Data Run level to get trustable lengths again, and this is what `NtfsAttributeListNonResidentAttributeValue` does here.
 
 use binrw::io::{Read, Seek, SeekFrom};
+use nt_string::u16strle::U16StrLe;
 
 use super::{DataRunsState, NtfsDataRuns, StreamState};
 use crate::attribute::{NtfsAttribute, NtfsAttributeType};
@@ -43,7 +44,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         ntfs: &'n Ntfs,
         fs: &mut T,
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
+        name: U16StrLe<'f>,
         ty: NtfsAttributeType,
         data_size: u64,
         initialized_size: u64,
@@ -52,7 +53,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         let connected_entries =
-            AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
+            AttributeListConnectedEntries::new(attribute_list_entries.clone(), name, ty);
         let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
@@ -223,8 +224,11 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
+        self.connected_entries = AttributeListConnectedEntries::new(
+            self.initial_attribute_list_entries.clone(),
+            self.connected_entries.name.clone(),
+            self.connected_entries.ty,
+        );
         self.stream_state = self.stream_state.rewound();
         self.next_attribute(fs)?;
 
@@ -334,20 +338,22 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 #[derive(Clone, Debug)]
 struct AttributeListConnectedEntries<'n, 'f> {
     attribute_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    instance: u16,
+    name: U16StrLe<'f>,
     ty: NtfsAttributeType,
+    is_first: bool,
 }
 
 impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
     fn new(
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
+        name: U16StrLe<'f>,
         ty: NtfsAttributeType,
     ) -> Self {
         Self {
             attribute_list_entries: Some(attribute_list_entries),
-            instance,
+            name,
             ty,
+            is_first: true,
         }
     }
 
@@ -358,7 +364,14 @@ impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
         let attribute_list_entries = self.attribute_list_entries.as_mut()?;
 
         let entry = iter_try!(attribute_list_entries.next(fs)?);
-        if entry.instance() == self.instance && iter_try!(entry.ty()) == self.ty {
+
+        // All connected attributes share the type and name, but only the first one begins at VCN 0.
+        // Instance numbers are of no use here, because every File Record has its own.
+        if iter_try!(entry.ty()) == self.ty
+            && entry.name().0 == self.name.0
+            && (entry.lowest_vcn().value() == 0) == self.is_first
+        {
+            self.is_first = false;
             Some(Ok(entry))
         } else {
             self.attribute_list_entries = None;
-- 
2.43.0


From d3a30d85a7266207a431ed6a85cd923218adaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 22/33] fix: Only serve File Records from within the MFT data
 and support fragmented ones

---
 src/file.rs | 11 +++++++++++
 src/ntfs.rs | 15 ++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..a5bc59c 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,6 +145,16 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
+        Self::from_data(ntfs, data, position, file_record_number)
+    }
+
+    /// Creates an [`NtfsFile`] from the File Record data that has been read from the given position.
+    pub(crate) fn from_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NonZeroU64,
+        file_record_number: u64,
+    ) -> Result<Self> {
         let mut record = Record::new(data, position.into());
         Self::validate_signature(&record)?;
         record.fixup()?;
diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..98f5c4f 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -100,13 +101,25 @@ impl Ntfs {
             mft.find_resident_attribute(NtfsAttributeType::Data, None, None)?;
         let mut mft_data_value = mft_data_attribute.value(fs)?;
 
+        // The entire File Record must be part of the MFT.
+        let end = offset
+            .checked_add(self.file_record_size as u64)
+            .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
+        if end > mft_data_value.len() {
+            return Err(NtfsError::InvalidFileRecordNumber { file_record_number });
+        }
+
         mft_data_value.seek(fs, SeekFrom::Start(offset))?;
         let position = mft_data_value
             .data_position()
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // Read the File Record through the value reader, as it may be spread over multiple data runs.
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_data(self, data, position, file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From 19779d6ebe74df0036e0539558c73e2fe9e7453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 23/33] fix: Find index records by VCN if they are smaller than
 a cluster

---
 src/record.rs                             |  2 +-
 src/structured_values/index_allocation.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 3468870..f3ca3db 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -10,7 +10,7 @@ use memoffset::{offset_of, span_of};
 use crate::error::{NtfsError, Result};
 use crate::types::NtfsPosition;
 
-const NTFS_BLOCK_SIZE: usize = 512;
+pub(crate) const NTFS_BLOCK_SIZE: usize = 512;
 
 #[repr(C, packed)]
 pub(crate) struct RecordHeader {
diff --git a/src/structured_values/index_allocation.rs b/src/structured_values/index_allocation.rs
index a5c72d6..b4cdac8 100644
--- a/src/structured_values/index_allocation.rs
+++ b/src/structured_values/index_allocation.rs
@@ -10,6 +10,7 @@ use crate::attribute_value::NtfsAttributeValue;
 use crate::error::{NtfsError, Result};
 use crate::index_record::NtfsIndexRecord;
 use crate::ntfs::Ntfs;
+use crate::record::NTFS_BLOCK_SIZE;
 use crate::structured_values::NtfsStructuredValue;
 use crate::traits::NtfsReadSeek;
 use crate::types::Vcn;
@@ -54,7 +55,14 @@ impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
     {
         // Seek to the byte offset of the given VCN.
         let mut value = self.value.clone();
-        let offset = vcn.offset(self.ntfs)?;
+        // If an Index Record is smaller than a cluster, its VCN counts 512-byte blocks instead of clusters.
+        let offset = if self.ntfs.cluster_size() <= index_record_size {
+            vcn.offset(self.ntfs)?
+        } else {
+            vcn.value()
+                .checked_mul(NTFS_BLOCK_SIZE as i64)
+                .ok_or(NtfsError::VcnTooBig { vcn })?
+        };
         value.seek(fs, SeekFrom::Current(offset))?;
 
         if value.stream_position() >= value.len() {
-- 
2.43.0


From b79de34e4a8c6d5ce36ea01e5a1a74ed3e547a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 24/33] fix: Refuse Attribute List entries that exceed the list

---
 src/structured_values/attribute_list.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..182b113 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -145,6 +145,7 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let mut value_attached = value.clone().attach(fs);
         let position = value.data_position();
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
+        iter_try!(entry.validate_remaining_length(value.len() - value.stream_position()));
 
         // Advance our iterator to the next entry.
         iter_try!(value.seek(fs, SeekFrom::Current(entry.list_entry_length() as i64)));
@@ -164,9 +165,11 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let mut cursor = Cursor::new(*slice);
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));
 
+        iter_try!(entry.validate_remaining_length(slice.len() as u64));
+
         // Advance our iterator to the next entry.
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        *slice = &slice[bytes_to_advance..];
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
@@ -312,4 +315,17 @@ impl NtfsAttributeListEntry {
 
         Ok(())
     }
+
+    fn validate_remaining_length(&self, remaining_length: u64) -> Result<()> {
+        if self.list_entry_length() as u64 > remaining_length {
+            return Err(NtfsError::InvalidStructuredValueSize {
+                position: self.position(),
+                ty: NtfsAttributeType::AttributeList,
+                expected: self.list_entry_length() as u64,
+                actual: remaining_length,
+            });
+        }
+
+        Ok(())
+    }
 }
-- 
2.43.0


From 1c493adaffe89706eb6f72f981c982698b328748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 25/33] fix: Don't iterate endlessly over cyclic indexes

---
 src/error.rs |  2 ++
 src/index.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index e9d9b79..e11ad03 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -236,6 +236,8 @@ pub enum NtfsError {
     },
     /// The index allocation at byte position {position:#x} references a Virtual Cluster Number (VCN) {vcn}, but this VCN exceeds the boundaries of the filesystem
     VcnOutOfBoundsInIndexAllocation { position: NtfsPosition, vcn: Vcn },
+    /// The index with its root at byte position {position:#x} references the subnode with Virtual Cluster Number (VCN) {vcn} more than once
+    VcnReferencedTwiceInIndex { position: NtfsPosition, vcn: Vcn },
     /// The Virtual Cluster Number (VCN) {vcn} is too big to be multiplied by the cluster size
     VcnTooBig { vcn: Vcn },
 }
diff --git a/src/index.rs b/src/index.rs
index 02e0ff3..2e52fa4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -4,6 +4,7 @@
 use core::cmp::Ordering;
 use core::marker::PhantomData;
 
+use alloc::collections::BTreeSet;
 use alloc::vec;
 use alloc::vec::Vec;
 use binrw::io::{Read, Seek};
@@ -15,7 +16,7 @@ use crate::index_entry::{
 };
 use crate::indexes::NtfsIndexEntryType;
 use crate::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Helper structure to iterate over all entries of an index or find a specific one.
 ///
@@ -106,6 +107,9 @@ where
     index: &'i NtfsIndex<'n, 'f, E>,
     inner_iterators: Vec<IndexNodeEntryRanges<E>>,
     following_entries: Vec<Option<IndexEntryRange<E>>>,
+    /// VCNs of all subnodes read so far.
+    /// In a valid B-tree, every subnode is only referenced once.
+    visited_vcns: BTreeSet<Vcn>,
 }
 
 impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E>
@@ -120,6 +124,7 @@ where
             index,
             inner_iterators,
             following_entries,
+            visited_vcns: BTreeSet::new(),
         }
     }
 
@@ -162,6 +167,14 @@ where
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
                     let subnode_vcn = iter_try!(subnode_vcn);
 
+                    // Don't follow a subnode twice, or we may iterate endlessly.
+                    if self.visited_vcns.contains(&subnode_vcn) {
+                        return Some(Err(NtfsError::VcnReferencedTwiceInIndex {
+                            position: self.index.index_root_position,
+                            vcn: subnode_vcn,
+                        }));
+                    }
+
                     // Read the subnode from the filesystem and get an iterator for it.
                     let index_allocation_item =
                         iter_try!(self.index.index_allocation_item.as_ref().ok_or(
@@ -180,6 +193,7 @@ where
                         self.index.index_record_size,
                         subnode_vcn
                     ));
+                    self.visited_vcns.insert(subnode_vcn);
                     let subnode_iter = subnode.into_entry_ranges();
 
                     let following_entry = if !is_last_entry {
@@ -263,6 +277,7 @@ where
     {
         // Always (re)start by iterating through the Index Root entry ranges.
         self.inner_iterator = self.index.index_root_entry_ranges.clone();
+        let mut visited_vcns = BTreeSet::new();
 
         loop {
             // Get the next entry.
@@ -300,6 +315,15 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
+
+            // Don't follow a subnode twice, or we may search endlessly.
+            if !visited_vcns.insert(subnode_vcn) {
+                return Some(Err(NtfsError::VcnReferencedTwiceInIndex {
+                    position: self.index.index_root_position,
+                    vcn: subnode_vcn,
+                }));
+            }
+
             let index_allocation_item = iter_try!(self.index.index_allocation_item.as_ref().ok_or(
                 NtfsError::MissingIndexAllocation {
                     position: self.index.index_root_position,
-- 
2.43.0


From bb52f007626345cbe690294b2c968cc82a79919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 26/33] fix: Return an error if the filesystem reader ends
 within a single Data Run

---
 src/attribute_value/non_resident.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 650a59f..dbe9422 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -564,7 +564,15 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
             fs.seek(SeekFrom::Start(position + self.stream_position))?;
-            fs.read(work_slice)?
+            let bytes_read = fs.read(work_slice)?;
+            if bytes_read == 0 && !work_slice.is_empty() {
+                // The Data Run has further data, but the filesystem reader has reached its end.
+                return Err(NtfsError::Io(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "the filesystem ends within a Data Run",
+                )));
+            }
+            bytes_read
         } else {
             // This is a sparse Data Run.
             work_slice.fill(0);
@@ -748,12 +756,7 @@ impl StreamState {
             data_run.read(fs, &mut buf[start..initialized_end])?
         };
         if bytes_read_in_data_run == 0 {
-            // The Data Run has further data, but the filesystem reader has reached its end.
-            // Don't go on with the next Data Run, as its data belongs to a later position.
-            return Err(NtfsError::Io(io::Error::new(
-                io::ErrorKind::UnexpectedEof,
-                "the filesystem ends within a Data Run",
-            )));
+            return Ok(false);
         }
 
         *bytes_read += bytes_read_in_data_run;
-- 
2.43.0


From 834ede5825de5d6c3fa59e55e42f6614bf9a8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 27/33] fix: Do not truncate remaining lengths on targets with
 32-bit pointers

A Data Run, value, or initialized part with 4 GiB or more left to read had its
remaining length cut down to its lower 32 bits, so reads came back short, empty,
or with zeros in place of data.
---
 src/attribute_value/non_resident.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index dbe9422..27aa1a0 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -537,7 +537,7 @@ impl NtfsDataRun {
 
     /// Fills `buf` with zeros up to the remaining length of this Data Run and advances by that number of bytes.
     pub(crate) fn read_zeros(&mut self, buf: &mut [u8]) -> usize {
-        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        let bytes_to_read = u64::min(buf.len() as u64, self.remaining_len()) as usize;
         buf[..bytes_to_read].fill(0);
 
         self.stream_position += bytes_to_read as u64;
@@ -558,7 +558,7 @@ impl NtfsReadSeek for NtfsDataRun {
             return Ok(0);
         }
 
-        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        let bytes_to_read = u64::min(buf.len() as u64, self.remaining_len()) as usize;
         let work_slice = &mut buf[..bytes_to_read];
 
         let bytes_read = if let Some(position) = self.position {
@@ -744,7 +744,7 @@ impl StreamState {
         // Read up to the buffer length or up to the (used) data size, whatever comes first.
         let start = *bytes_read;
         let remaining_buf_len = buf.len() - start;
-        let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
+        let end = start + u64::min(remaining_buf_len as u64, remaining_data_size) as usize;
 
         // Perform the actual read, but return zeros for everything beyond the initialized size.
         let remaining_initialized_size = self.initialized_size.saturating_sub(self.stream_position);
@@ -752,7 +752,7 @@ impl StreamState {
             data_run.read_zeros(&mut buf[start..end])
         } else {
             let initialized_end =
-                start + usize::min(end - start, remaining_initialized_size as usize);
+                start + u64::min((end - start) as u64, remaining_initialized_size) as usize;
             data_run.read(fs, &mut buf[start..initialized_end])?
         };
         if bytes_read_in_data_run == 0 {
-- 
2.43.0


From 4caaf14f12f7ea5c5292a5b9ed61a5095d2754de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 28/33] fix: Do not overflow for large Index Root sizes on
 targets with 32-bit pointers

---
 src/structured_values/index_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 982febd..1a6841c 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -80,8 +80,9 @@ impl<'f> NtfsIndexRoot<'f> {
     }
 
     fn entries_range_and_position(&self) -> (Range<usize>, NtfsPosition) {
-        let start = INDEX_ROOT_HEADER_SIZE + self.index_entries_offset() as usize;
-        let end = INDEX_ROOT_HEADER_SIZE + self.index_data_size() as usize;
+        // These fields are not validated yet, so don't let them overflow on targets with 32-bit pointers.
+        let start = INDEX_ROOT_HEADER_SIZE.saturating_add(self.index_entries_offset() as usize);
+        let end = INDEX_ROOT_HEADER_SIZE.saturating_add(self.index_data_size() as usize);
         let position = self.position + start;
 
         (start..end, position)
-- 
2.43.0


From 17410852a209415c01683e2c154ef85c7f8eb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 29/33] fix: Report the position of the next byte after a
 connected attribute without Data Runs

When reading or seeking exactly to the end of a connected attribute, the next
one was opened, but not the one after it if the next one has no Data Runs.
---
 .../attribute_list_non_resident.rs               | 16 +++++++++++++++-
 src/attribute_value/non_resident.rs              |  5 +++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index b89feb2..ee68542 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -130,8 +130,22 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         Ok(true)
     }
 
-    /// Advances to the next attribute and returns whether we got another connected attribute.
+    /// Advances to the next attribute that has a Data Run and returns whether we got another connected attribute.
     fn next_attribute<T>(&mut self, fs: &mut T) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        while self.open_next_attribute(fs)? {
+            if self.stream_state.has_data_run() {
+                return Ok(true);
+            }
+        }
+
+        Ok(false)
+    }
+
+    /// Advances to the next attribute and returns whether we got another connected attribute.
+    fn open_next_attribute<T>(&mut self, fs: &mut T) -> Result<bool>
     where
         T: Read + Seek,
     {
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 27aa1a0..0bce5df 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -643,6 +643,11 @@ impl StreamState {
         self.data_size
     }
 
+    /// Returns whether there is a current Data Run to read from or seek in.
+    pub(crate) fn has_data_run(&self) -> bool {
+        self.stream_data_run.is_some()
+    }
+
     /// Returns whether the current Data Run has been read to its end, but the value goes on in the next one.
     pub(crate) fn is_data_run_exhausted(&self) -> bool {
         self.stream_position < self.data_size
-- 
2.43.0


From 5a40bb000c7355b27d4fae45163cd24f91117257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 30/33] fix: report a short volume information as such, not as
 standard information

---
 src/structured_values/volume_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structured_values/volume_information.rs b/src/structured_values/volume_information.rs
index 07e42ff..cfc0da9 100644
--- a/src/structured_values/volume_information.rs
+++ b/src/structured_values/volume_information.rs
@@ -71,7 +71,7 @@ impl NtfsVolumeInformation {
         if value_length < VOLUME_INFORMATION_SIZE as u64 {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
-                ty: NtfsAttributeType::StandardInformation,
+                ty: NtfsAttributeType::VolumeInformation,
                 expected: VOLUME_INFORMATION_SIZE as u64,
                 actual: value_length,
             });
-- 
2.43.0


From 80162ba3e7ff12d6c776e49333bc6074f0c5b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 31/33] fix: state the full minimum size of an index root in
 the error

---
 src/structured_values/index_root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 1a6841c..9cd6544 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -57,7 +57,7 @@ impl<'f> NtfsIndexRoot<'f> {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
                 ty: NtfsAttributeType::IndexRoot,
-                expected: INDEX_ROOT_HEADER_SIZE as u64,
+                expected: (INDEX_ROOT_HEADER_SIZE + INDEX_NODE_HEADER_SIZE) as u64,
                 actual: slice.len() as u64,
             });
         }
-- 
2.43.0


From 5f76ba10b5ba4cc19ccf2d772f91ee577c802d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 32/33] fix: don't swap the sizes in the index record size
 errors

---
 src/index_record.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/index_record.rs b/src/index_record.rs
index cc10b95..b4c354b 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -173,8 +173,8 @@ impl NtfsIndexRecord {
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
-                expected: index_record_size,
-                actual: total_allocated_size,
+                expected: total_allocated_size,
+                actual: index_record_size,
             });
         }
 
@@ -184,8 +184,8 @@ impl NtfsIndexRecord {
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
-                expected: total_allocated_size,
-                actual: total_data_size,
+                expected: total_data_size,
+                actual: total_allocated_size,
             });
         }
 
-- 
2.43.0


From 61c141ec7cdbb1d2eb4681872e8d3aca4af209b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 33/33] fix: report the on-disk position of the boot signature

---
 src/boot_sector.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index 6128e43..b9ab61b 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -4,7 +4,6 @@
 use core::ops::RangeInclusive;
 
 use binrw::BinRead;
-use memoffset::offset_of;
 
 use crate::error::{NtfsError, Result};
 use crate::types::{Lcn, NtfsPosition};
@@ -187,6 +186,9 @@ impl BiosParameterBlock {
     }
 }
 
+/// Position of the two-byte signature on disk (unlike in the memory layout of [`BootSector`]).
+const SIGNATURE_POSITION: u64 = 510;
+
 #[allow(unused)]
 #[derive(BinRead)]
 pub(crate) struct BootSector {
@@ -207,7 +209,7 @@ impl BootSector {
         let expected_signature = &[0x55, 0xAA];
         if &self.signature != expected_signature {
             return Err(NtfsError::InvalidTwoByteSignature {
-                position: NtfsPosition::new(offset_of!(BootSector, signature) as u64),
+                position: NtfsPosition::new(SIGNATURE_POSITION),
                 expected: expected_signature,
                 actual: self.signature,
             });
-- 
2.43.0

