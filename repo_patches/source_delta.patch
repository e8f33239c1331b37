From 881899d08d53c06b302465c9ffa9ce39e0f18fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 01/14] fix: report the end of input when skipping a truncated
 integer

skip_uleb_fallback indexed past the end of the slice and panicked when the
input ended inside (or directly before) the skipped integer.
---
 runtime/src/protocol.rs | 2 +-
 runtime/src/uleb.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..a0bcd23 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -364,7 +364,7 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
             self.0 = unsafe { skip_uleb_sse2(self.0) };
             Ok(())
         } else {
-            self.0 = skip_uleb_fallback(self.0);
+            self.0 = skip_uleb_fallback(self.0).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))?;
             Ok(())
         }
     }
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..56b3d57 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -31,12 +31,12 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Option<&[u8]> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..)
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From abac637912856908442d058c0316ceabeea982d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 02/14] fix: skip integers of more than 16 bytes completely

skip_uleb_sse2 skipped 17 bytes when none of the first 16 bytes ended the
number, which is out of bounds for an input of exactly 16 bytes and otherwise
leaves the input in the middle of the number or behind it.
---
 runtime/src/protocol.rs | 12 +++++++-----
 runtime/src/uleb.rs     |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index a0bcd23..caea447 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -361,12 +361,14 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))?;
-            Ok(())
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            if rest.len() < self.0.len() {
+                self.0 = rest;
+                return Ok(())
+            }
         }
+        self.0 = skip_uleb_fallback(self.0).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))?;
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 56b3d57..5b9575d 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -18,6 +18,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Returns `input` unchanged if the number does not end within the first 16 bytes.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -27,6 +29,9 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
     let mask = !_mm_movemask_epi8(chunk);
     let len = (mask << 1).trailing_zeros() as usize;
+    if len > 16 {
+        return input;
+    }
     input.get_unchecked(len..)
 }
 
-- 
2.43.0


From ac1604157b25429ddceb0fc68e09b75cfc212722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 03/14] fix: write the field id in long field headers

The long form of a field header contains the field id itself, not the delta,
and has to be used for all deltas outside of 1..=15.
---
 runtime/src/protocol.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index caea447..7e76348 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -258,13 +258,14 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 
 #[inline]
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
-    let field_delta = field_id.wrapping_sub(*last_field_id);
-
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
-        output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    match field_id.checked_sub(*last_field_id) {
+        Some(field_delta @ 1..=15) => {
+            output.write_byte(field_type | ((field_delta as u8) << 4))?;
+        }
+        _ => {
+            output.write_byte(field_type)?;
+            output.write_i16(field_id)?
+        }
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From af3328d0f85f55eab58d7edb768a650514fb1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 04/14] fix: reject boolean fields with another field type

---
 runtime/src/types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..f2d304c 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,6 +33,9 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        if field_type != 1 && field_type != 2 {
+            return Err(ThriftError::InvalidType)
+        }
         *self = field_type == 1;
         Ok(())
     }
-- 
2.43.0


From a52c8ee79672b295c915956e0c0cfef5c890f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 05/14] fix: check the field type of union members

Boolean members are stored in the field type, all others were decoded even if
the field had a different type.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..c5c918b 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From 459bc3513077ed7aa3f909eea51459a31c330ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 06/14] fix: name the union in the error about an unknown
 member

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index c5c918b..f101ec5 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From b0887b58a3aa172a6d495e81ef955128294c2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 07/14] fix: read and write boxed boolean fields in the field
 header

Box, Rc and Arc used the default implementations for fields, which do not work
for boolean content.
---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index f2d304c..672925f 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -291,10 +291,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -305,10 +315,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -319,10 +339,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From fdc197035d0bffa1c6acb7e2c4d209ccd3721205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 08/14] fix: return an error when a field delta exceeds the
 range of field ids

---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 7e76348..fabcffb 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From b34c6e3d11ff6af8cd5c1bcbc6c1e43f8dcfb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 09/14] fix: limit the nesting depth of skipped fields

A few hundred kilobytes of nested structs, lists or maps in an unknown field
overflowed the stack and aborted the process.
---
 runtime/src/error.rs    |  1 +
 runtime/src/protocol.rs | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/runtime/src/error.rs b/runtime/src/error.rs
index 1d002eb..77f14b0 100644
--- a/runtime/src/error.rs
+++ b/runtime/src/error.rs
@@ -18,6 +18,7 @@ pub enum ThriftError {
     MissingStop,
     DuplicateField,
     InvalidType,
+    NestingTooDeep,
     ReserveError,
     IO(ErrorKind)
 }
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index fabcffb..5587265 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Maximum nesting of collections and structs inside unknown fields
+pub const MAX_SKIP_DEPTH: usize = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,8 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, depth)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, depth)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_field_with_depth(input, 12, false, depth)?;
             }
         }
         _ => {
@@ -197,16 +200,21 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_field_with_depth(input, key_type, true, depth)?;
+        skip_field_with_depth(input, val_type, true, depth)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_field_with_depth(input, field_type, inside_collection, MAX_SKIP_DEPTH)
+}
+
+fn skip_field_with_depth<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, depth: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +240,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, depth)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, depth)?;
         }
         12 => {
             // struct | union
+            let depth = depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_field_with_depth(input, field_type, false, depth)?;
             }
         }
         _ => {
-- 
2.43.0


From 3b6e7abeb4b2aa31d8a606f991e483dc3bbb7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 10/14] fix: return an error for page index locations outside
 of the given bytes

Page index locations come from the file and were only checked by assertions
and slice indexing; locations of column chunks that do not have both indexes
were checked even though get_page_index_range ignores those chunks.
---
 parquet/src/lib.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..98e3644 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -103,21 +103,16 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+fn slice_page_index(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    let start = usize::try_from(offset).ok().and_then(|offset| offset.checked_sub(chunk_offset)).ok_or(ParquetError::InvalidOffset)?;
+    let end = usize::try_from(length).ok().and_then(|length| start.checked_add(length)).ok_or(ParquetError::InvalidOffset)?;
+    chunk.get(start..end).ok_or(ParquetError::InvalidOffset)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
+        let (offset_index_bytes, column_index_bytes) = if let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) {
+            (slice_page_index(chunk, chunk_offset, oo, ol)?, slice_page_index(chunk, chunk_offset, co, cl)?)
         } else {
             return Ok(None)
         };
@@ -126,8 +121,8 @@ fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_ch
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_bytes))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From e1ed8ba69d80bc866537f7f81fab2aef9290a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 11/14] fix: check the page index range before allocating
 memory for it

---
 parquet/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 98e3644..01fcdbf 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -87,6 +87,11 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
+        let input_len = input.seek(SeekFrom::End(0))?;
+        if range.end as u64 > input_len {
+            return Err(ParquetError::InvalidOffset);
+        }
+
         input.seek(SeekFrom::Start(range.start as u64))?;
 
         let mut buf = Vec::with_capacity(range.len());
-- 
2.43.0


From 0ff59c03870f3b2ae862b5994dc3f7d486789cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 12/14] fix: use i8 for fields of type byte

u8 does not implement CompactThriftProtocol, so that a field of type byte did not
compile, and list<byte> was written as a binary. A thrift byte is signed.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index f101ec5..8c8bbbc 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -252,7 +252,7 @@ macro_rules! __thrift_field_type {
     (set $element_type:ident) => { Vec< $crate::__thrift_field_type!($element_type) > };
     (binary) => { Vec<u8> };
     (string) => { String };
-    (byte) => { u8 };
+    (byte) => { i8 };
     (double) => { f64 };
     ($field_type:ty) => { $field_type }; // this covers bool | i8 | i16 | i32 | i64
     (Box $element_type:ident) => { std::boxed::Box< $crate::__thrift_field_type!($element_type) > };
-- 
2.43.0


From d17867bf2c2cc67f11c9ec06e62eb261fb56edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 13/14] fix: do not pass uninitialized memory to Read
 implementations

A safe Read implementation may look at the buffer, which is undefined behavior
for uninitialized bytes.
---
 parquet/src/lib.rs      | 16 ++--------------
 runtime/src/protocol.rs |  8 +-------
 2 files changed, 3 insertions(+), 21 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 01fcdbf..eeed115 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -34,7 +34,6 @@ impl From<ThriftError> for ParquetError {
 
 const PARQUET_MAGIC: [u8; 4] = [b'P', b'A', b'R', b'1'];
 
-#[expect(clippy::uninit_vec)]
 pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, ParquetError> {
     let _pos = input.seek(SeekFrom::End(-8))?;
     let mut footer = [0_u8; 8];
@@ -46,12 +45,7 @@ pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, Parq
     let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
     input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
 
-    let mut buf = Vec::with_capacity(metadata_len);
-    // Safety: Readers should not look at uninitialized bytes, only write into the slice
-    unsafe {
-        buf.set_len(metadata_len);
-    }
-
+    let mut buf = vec![0; metadata_len];
     input.read_exact(&mut buf)?;
     Ok(buf)
 }
@@ -83,7 +77,6 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
     }
 }
 
-#[expect(clippy::uninit_vec)]
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
@@ -94,12 +87,7 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
 
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
-        // Safety: Readers should not look at uninitialized bytes, only write into the slice
-        unsafe {
-            buf.set_len(range.len());
-        }
-
+        let mut buf = vec![0; range.len()];
         input.read_exact(&mut buf)?;
 
         Ok(Some((buf, range)))
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 5587265..ddaf7e9 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -295,18 +295,12 @@ impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
         Ok(f64::from_le_bytes(buf))
     }
 
-    #[expect(clippy::uninit_vec)]
     fn read_binary(&mut self) -> Result<Cow<'static, [u8]>, ThriftError> {
         let len = self.read_len()?;
         if len > MAX_BINARY_LEN {
             return Err(ThriftError::InvalidBinaryLen(len));
         }
-        let mut buf = Vec::with_capacity(len);
-        // Safety: we trust the Read implementation to only write into buf,
-        // and not to look at uninitialized bytes
-        unsafe {
-            buf.set_len(len);
-        }
+        let mut buf = vec![0; len];
         self.read_exact(buf.as_mut_slice())?;
         Ok(buf.into())
     }
-- 
2.43.0


From c7a894ce76b903b24871295fcf2c8bfe95765ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 14/14] fix: do not overflow the shift while reading very long
 integers

Overlong numbers are accepted, but after 613566757 bytes the shift counter
overflowed, which panics when overflow checks are enabled.
---
 runtime/src/uleb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 5b9575d..52f2dba 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -10,7 +10,7 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 
         // overlong sequences are not treated as an error for performance reasons
         value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
-        shift += 7;
+        shift = shift.wrapping_add(7);
 
         if (byte & 0x80) == 0 {
             return Ok(value);
-- 
2.43.0

