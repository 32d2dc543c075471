From 2584f77170c686c0ed6b5cef7d1f90c8c81216ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 01/15] fix: read object key offsets without unaligned u32
 slices

---
 src/builder/object.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..f740d75 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -11,6 +11,7 @@ use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
+use std::cmp::Ordering;
 use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
@@ -72,15 +73,13 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         }
 
         let begin = self.start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
-
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
 
-        for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+        for i in 0..self.element_count as usize - 1 {
+            let cur_offset = Self::read_key_offset(bytes, begin + i * KEY_OFFSET_SIZE);
+            let next_offset = Self::read_key_offset(bytes, begin + (i + 1) * KEY_OFFSET_SIZE);
+            let cur_key = Self::read_key_by_offset(bytes, cur_offset, self.start_pos);
+            let next_key = Self::read_key_by_offset(bytes, next_offset, self.start_pos);
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -154,20 +153,28 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
     #[inline]
     fn binary_search(target: &str, bytes: &[u8], start_pos: usize, value_count: usize) -> usize {
         let begin = start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + value_count * KEY_OFFSET_SIZE;
 
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
+        let mut left = 0;
+        let mut right = value_count;
+        while left < right {
+            let mid = left + (right - left) / 2;
+            let key_offset = Self::read_key_offset(bytes, begin + mid * KEY_OFFSET_SIZE);
+            let key = Self::read_key_by_offset(bytes, key_offset, start_pos);
+            match cmp_key(key, target) {
+                Ordering::Less => left = mid + 1,
+                Ordering::Equal => return mid,
+                Ordering::Greater => right = mid,
+            }
+        }
 
-        let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
-            cmp_key(key, target)
-        });
+        left
+    }
 
-        match found {
-            Ok(v) => v,
-            Err(v) => v,
-        }
+    #[inline]
+    fn read_key_offset(bytes: &[u8], offset_pos: usize) -> usize {
+        let offset_bytes = &bytes[offset_pos..offset_pos + KEY_OFFSET_SIZE];
+        // SAFETY: The `offset_bytes` must be valid because the slice operation always takes 4 bytes.
+        u32::from_le_bytes(offset_bytes.try_into().unwrap()) as usize
     }
 
     #[inline]
-- 
2.43.0


From 3c3539c53d3e6c9038f7b7b17feda4e7c14f99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 02/15] fix: select the first element with [last - k] and
 handle empty arrays

---
 src/path/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..0039d34 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
-- 
2.43.0


From 9c9afd9b01cbbb02237daab308c60a0884ead6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 03/15] fix: evaluate array ranges on empty arrays and
 non-array values

---
 src/path/query.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 0039d34..b996a18 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -380,13 +380,7 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
             },
 
             SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+                if find_range(left_field, right_field, 1).is_some() {
                     return true;
                 }
             }
@@ -401,7 +395,15 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
     fn inner(u1: usize, u2: usize, len: usize) -> Option<(usize, usize)> {
         let b = u1.min(u2);
         let e = u1.max(u2).min(len - 1);
-        Some((b, e))
+        if b <= e {
+            Some((b, e))
+        } else {
+            None
+        }
+    }
+
+    if len == 0 {
+        return None;
     }
 
     let last = len - 1;
-- 
2.43.0


From 430b7f891dc64fab78ffeb3c1a4be458a2fe7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 04/15] fix: refuse object keys longer than the 16-bit key
 length field

---
 src/binary.rs         | 1 +
 src/builder/object.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index fb5b2b1..74e8479 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -11,6 +11,7 @@ pub const ELEMENT_COUNT_SIZE: usize = size_of::<u16>();
 pub const KEY_OFFSET_SIZE: usize = size_of::<u32>();
 pub const VALUE_ENTRY_SIZE: usize = DATA_TYPE_SIZE + size_of::<u32>();
 pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
+pub const MAX_KEY_SIZE: usize = u16::MAX as usize;
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/object.rs b/src/builder/object.rs
index f740d75..5086da3 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -117,6 +117,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if key.len() > MAX_KEY_SIZE {
+            return Err(BuildError::StringTooLong(key.len()));
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 0e6de074174d92d799e029af1375e005cd561ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:16 +0000
Subject: [PATCH 05/15] fix: refuse to push more elements than declared

---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..faf2741 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -84,6 +84,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count == self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 5086da3..82c250c 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -117,6 +117,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count == self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
         if key.len() > MAX_KEY_SIZE {
             return Err(BuildError::StringTooLong(key.len()));
         }
-- 
2.43.0


From 4b1b3c469078ebb725e5336c526d5acbd8675609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 06/15] fix: refuse JSON arrays and objects with more than
 65535 members

---
 src/builder/mod.rs |  2 ++
 src/json.rs        | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 8412077..b94ee50 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -41,6 +41,7 @@ pub enum BuildError {
     InnerUncompletedError,
     InconsistentElementCount { expected: u16, actual: u16 },
     StringTooLong(usize),
+    TooManyElements(usize),
     JsonError(serde_json::Error),
     NumberError(NumberError),
     NestedTooDeeply,
@@ -58,6 +59,7 @@ impl Display for BuildError {
                 expected, actual
             ),
             BuildError::StringTooLong(e) => write!(f, "string too long, length is {}", e),
+            BuildError::TooManyElements(e) => write!(f, "too many elements, element count is {}", e),
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
diff --git a/src/json.rs b/src/json.rs
index ce41127..eeb665d 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -21,12 +21,12 @@ impl TryFrom<&serde_json::Value> for YasonBuf {
             Value::Number(val) => Scalar::number(number2decimal(val, &mut buf)?),
             Value::String(val) => Scalar::string(val),
             Value::Array(val) => {
-                let mut array_builder = ArrayBuilder::try_new(val.len() as u16)?;
+                let mut array_builder = ArrayBuilder::try_new(element_count(val.len())?)?;
                 write_array(&mut array_builder, val, &mut buf)?;
                 array_builder.finish()
             }
             Value::Object(val) => {
-                let mut object_builder = ObjectBuilder::try_new(val.len() as u16, false)?;
+                let mut object_builder = ObjectBuilder::try_new(element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, &mut buf)?;
                 object_builder.finish()
             }
@@ -56,12 +56,12 @@ impl Yason {
             Value::Number(val) => Scalar::number_with_vec(number2decimal(val, &mut buf)?, bytes),
             Value::String(val) => Scalar::string_with_vec(val, bytes),
             Value::Array(array) => {
-                let mut builder = ArrayRefBuilder::try_new(bytes, array.len() as u16)?;
+                let mut builder = ArrayRefBuilder::try_new(bytes, element_count(array.len())?)?;
                 write_array(&mut builder, array, &mut buf)?;
                 builder.finish()
             }
             Value::Object(object) => {
-                let mut builder = ObjectRefBuilder::try_new(bytes, object.len() as u16, false)?;
+                let mut builder = ObjectRefBuilder::try_new(bytes, element_count(object.len())?, false)?;
                 write_object(&mut builder, object, &mut buf)?;
                 builder.finish()
             }
@@ -69,6 +69,11 @@ impl Yason {
     }
 }
 
+#[inline]
+fn element_count(len: usize) -> BuildResult<u16> {
+    u16::try_from(len).map_err(|_| BuildError::TooManyElements(len))
+}
+
 #[inline]
 fn write_array<T: ArrBuilder>(builder: &mut T, array: &[serde_json::Value], buf: &mut String) -> BuildResult<()> {
     for value in array {
@@ -86,12 +91,12 @@ fn write_array<T: ArrBuilder>(builder: &mut T, array: &[serde_json::Value], buf:
                 builder.push_string(val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(val.len() as u16)?;
+                let mut array_builder = builder.push_array(element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
@@ -121,12 +126,12 @@ fn write_object<T: ObjBuilder>(
                 builder.push_string(key, val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(key, val.len() as u16)?;
+                let mut array_builder = builder.push_array(key, element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(key, val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(key, element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
-- 
2.43.0


From 2fcdfaa4076495d3f06223c9264c6d60de92d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 07/15] fix: report query results that do not fit in an array
 instead of panicking

---
 src/path/mod.rs  | 5 +++--
 src/yason/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/path/mod.rs b/src/path/mod.rs
index 263e2e6..c967879 100644
--- a/src/path/mod.rs
+++ b/src/path/mod.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use std::str::FromStr;
 
 use crate::yason::YasonResult;
-use crate::{ArrayRefBuilder, DataType, Number, Value, Yason, YasonError};
+use crate::{ArrayRefBuilder, BuildError, DataType, Number, Value, Yason, YasonError};
 
 use crate::format::{CompactFormatter, FormatResult, Formatter, PrettyFormatter};
 use crate::path::query::Selector;
@@ -196,7 +196,8 @@ fn push_value<'a>(buf: &mut Vec<Value<'a>>, value: Value<'a>) -> YasonResult<()>
 
 #[inline]
 fn values_to_yason<'a>(values: &[Value], bytes: &'a mut Vec<u8>) -> YasonResult<&'a Yason> {
-    let mut builder = ArrayRefBuilder::try_new(bytes, values.len() as u16)?;
+    let element_count = u16::try_from(values.len()).map_err(|_| BuildError::TooManyElements(values.len()))?;
+    let mut builder = ArrayRefBuilder::try_new(bytes, element_count)?;
     for value in values {
         match value {
             Value::Object(object) => unsafe { builder.push_object_or_array(object.yason(), DataType::Object)? },
diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..8b8ee21 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -27,6 +27,7 @@ pub enum YasonError {
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
+    BuildError(BuildError),
 }
 
 impl fmt::Display for YasonError {
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
             }
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
+            YasonError::BuildError(e) => write!(f, "{}", e),
         }
     }
 }
@@ -54,7 +56,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
-            _ => unreachable!(),
+            e => YasonError::BuildError(e),
         }
     }
 }
-- 
2.43.0


From 69307c72eed9e2356c46b4db5c9389568fd6dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 08/15] fix: leave the builder unchanged when a push is refused

---
 src/builder/array.rs  | 15 ++++++++------
 src/builder/mod.rs    |  8 ++++++++
 src/builder/object.rs | 47 ++++++++++++++++++-------------------------
 3 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index faf2741..f7f9238 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -4,7 +4,7 @@ use crate::binary::{
     ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
-use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
+use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number, ObjectRefBuilder};
@@ -24,9 +24,7 @@ pub(crate) struct InnerArrayBuilder<'a, B: AsMut<Vec<u8>>> {
 impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     pub(crate) fn try_new(mut bytes: B, element_count: u16, mut total_depth: Depth<'a>) -> BuildResult<Self> {
-        if total_depth.depth() >= MAX_NESTED_DEPTH {
-            return Err(BuildError::NestedTooDeeply);
-        }
+        check_nested_depth(total_depth.depth())?;
 
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
@@ -92,10 +90,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
         let offset = bytes.len() - self.start_pos;
 
+        // A refused value leaves the array as it was.
         f(bytes, offset as u32, self.value_entry_pos)?;
+        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
 
         self.value_entry_pos += VALUE_ENTRY_SIZE;
         self.value_count += 1;
@@ -104,7 +103,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        let depth = self.current_depth;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            check_nested_depth(depth)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -116,7 +117,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        let depth = self.current_depth;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            check_nested_depth(depth)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -130,9 +133,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     fn push_string(&mut self, value: &str) -> BuildResult<()> {
         let size = MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             bytes.try_reserve(size)?;
             bytes.push_string(value)?;
+            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
         self.push_value(DataType::String, f)
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index b94ee50..b659b96 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -78,6 +78,14 @@ impl From<TryReserveError> for BuildError {
 
 pub type BuildResult<T> = std::result::Result<T, BuildError>;
 
+#[inline]
+fn check_nested_depth(depth: usize) -> BuildResult<()> {
+    if depth >= MAX_NESTED_DEPTH {
+        return Err(BuildError::NestedTooDeeply);
+    }
+    Ok(())
+}
+
 pub(crate) enum Depth<'a> {
     Owned(usize),
     Borrowed(&'a mut usize),
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 82c250c..b25490a 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -5,14 +5,13 @@ use crate::binary::{
     MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
-use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
+use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
 use crate::util::cmp_key;
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
 use std::cmp::Ordering;
-use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
     bytes: B,
@@ -34,9 +33,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         key_sorted: bool,
         mut total_depth: Depth<'a>,
     ) -> BuildResult<Self> {
-        if total_depth.depth() >= MAX_NESTED_DEPTH {
-            return Err(BuildError::NestedTooDeeply);
-        }
+        check_nested_depth(total_depth.depth())?;
 
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
@@ -130,31 +127,25 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
 
-        if !self.key_sorted {
+        let key_pos = bytes.len();
+        let offset_pos = if self.key_sorted {
+            self.key_offset_pos
+        } else {
             let pos = Self::binary_search(key, bytes, self.start_pos, self.value_count as usize);
+            self.start_pos + ELEMENT_COUNT_SIZE + pos * KEY_OFFSET_SIZE
+        };
 
-            let key_offset = bytes.len() - self.start_pos;
-            let offset_pos = self.start_pos + ELEMENT_COUNT_SIZE + pos * KEY_OFFSET_SIZE;
-
-            if pos < self.value_count as usize {
-                let count = (self.value_count as usize - pos) * KEY_OFFSET_SIZE;
-                let src = bytes[offset_pos..offset_pos + count].as_mut_ptr();
-                let dst = unsafe { src.add(KEY_OFFSET_SIZE) };
-
-                unsafe { ptr::copy(src, dst, count) }
-            }
-            bytes.write_offset(key_offset as u32, offset_pos);
-            bytes.push_key(key);
-        } else {
-            let key_offset = bytes.len() - self.start_pos;
-            bytes.write_offset(key_offset as u32, self.key_offset_pos);
-            bytes.push_key(key);
+        bytes.push_key(key);
+        if let Err(e) = f(bytes) {
+            // A refused value leaves the object as it was.
+            bytes.truncate(key_pos);
+            return Err(e);
         }
 
-        self.key_offset_pos += KEY_OFFSET_SIZE;
-
-        f(bytes)?;
+        bytes.copy_within(offset_pos..self.key_offset_pos, offset_pos + KEY_OFFSET_SIZE);
+        bytes.write_offset((key_pos - self.start_pos) as u32, offset_pos);
 
+        self.key_offset_pos += KEY_OFFSET_SIZE;
         self.value_count += 1;
         Ok(())
     }
@@ -205,7 +196,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
         let size = key.len() + KEY_LENGTH_SIZE;
-        self.push_key_value_by(key, size, |_| Ok(()))?;
+        let depth = self.current_depth;
+        self.push_key_value_by(key, size, |_| check_nested_depth(depth))?;
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
     }
@@ -213,7 +205,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
         let size = key.len() + KEY_LENGTH_SIZE;
-        self.push_key_value_by(key, size, |_| Ok(()))?;
+        let depth = self.current_depth;
+        self.push_key_value_by(key, size, |_| check_nested_depth(depth))?;
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
     }
-- 
2.43.0


From aab75f9ef36d0822c2717882a73b29c72b005ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 09/15] fix: compare documents by value, not by encoded length

---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 8b8ee21..79efd56 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -254,7 +254,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -545,7 +545,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From 80f5ca60e02194ebdbec481a393973844a20c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 10/15] fix: escape every control character when formatting
 strings

---
 src/format/mod.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..df4b551 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -324,14 +324,42 @@ const RR: &[u8] = b"\\r"; // \x0D
 const QU: &[u8] = b"\\\""; // \x22
 const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
+// The other control characters have no short escape sequence.
+const C00: &[u8] = b"\\u0000";
+const C01: &[u8] = b"\\u0001";
+const C02: &[u8] = b"\\u0002";
+const C03: &[u8] = b"\\u0003";
+const C04: &[u8] = b"\\u0004";
+const C05: &[u8] = b"\\u0005";
+const C06: &[u8] = b"\\u0006";
+const C07: &[u8] = b"\\u0007";
+const C0B: &[u8] = b"\\u000b";
+const C0E: &[u8] = b"\\u000e";
+const C0F: &[u8] = b"\\u000f";
+const C10: &[u8] = b"\\u0010";
+const C11: &[u8] = b"\\u0011";
+const C12: &[u8] = b"\\u0012";
+const C13: &[u8] = b"\\u0013";
+const C14: &[u8] = b"\\u0014";
+const C15: &[u8] = b"\\u0015";
+const C16: &[u8] = b"\\u0016";
+const C17: &[u8] = b"\\u0017";
+const C18: &[u8] = b"\\u0018";
+const C19: &[u8] = b"\\u0019";
+const C1A: &[u8] = b"\\u001a";
+const C1B: &[u8] = b"\\u001b";
+const C1C: &[u8] = b"\\u001c";
+const C1D: &[u8] = b"\\u001d";
+const C1E: &[u8] = b"\\u001e";
+const C1F: &[u8] = b"\\u001f";
 const __: &[u8] = b"";
 
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    C00, C01, C02, C03, C04, C05, C06, C07, BB, TT, NN, C0B, FF, RR, C0E, C0F, // 0
+    C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C1A, C1B, C1C, C1D, C1E, C1F, // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 6fd47167bba1e12103e8f0eb3901201619a209dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 11/15] fix: pretty print values nested deeper than 100 levels

---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..dfedf6d 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut remaining = level * indent;
+    while remaining > 0 {
+        let len = remaining.min(SPACE_BUF.len());
+        writer.write_bytes(&SPACE_BUF[..len])?;
+        remaining -= len;
+    }
     Ok(())
 }
-- 
2.43.0


From 15470f9f33b6a2ee949931cffc816befb6877030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 12/15] fix: zero the reserved header and entry slots instead
 of exposing stale bytes

---
 src/vec.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 454c0cd..8a58735 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -75,27 +75,21 @@ impl VecExt for Vec<u8> {
     fn skip_size(&mut self) {
         let new_len = self.len() + OBJECT_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_key_offset(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * KEY_OFFSET_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_value_entry(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * VALUE_ENTRY_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
-- 
2.43.0


From 9c7746c0be6ceb4be937c32003ce6a76aedb72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:54 +0000
Subject: [PATCH 13/15] fix: parse array subscript lists iteratively

---
 src/path/parse.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..5543918 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -237,27 +237,30 @@ impl<'a> PathParser<'a> {
 
     #[inline]
     fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
-        let begin = self.parse_last_or_index()?;
-        steps
-            .try_reserve(std::mem::size_of::<Step>())
-            .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
+        loop {
+            let begin = self.parse_last_or_index()?;
+            steps
+                .try_reserve(std::mem::size_of::<Step>())
+                .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
 
-        self.eat_whitespaces();
-        if self.has_keyword(TO) {
-            self.advance(TO.len());
             self.eat_whitespaces();
+            if self.has_keyword(TO) {
+                self.advance(TO.len());
+                self.eat_whitespaces();
 
-            let end = self.parse_last_or_index()?;
-            steps.push(SingleStep::Range(begin, end));
-        } else {
-            steps.push(SingleStep::Single(begin));
-        }
+                let end = self.parse_last_or_index()?;
+                steps.push(SingleStep::Range(begin, end));
+            } else {
+                steps.push(SingleStep::Single(begin));
+            }
 
-        self.eat_whitespaces();
-        if self.peek() == Some(COMMA) {
-            self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
+            if self.peek() == Some(COMMA) {
+                self.advance(CTRL_CHAR_LEN);
+                self.eat_whitespaces();
+            } else {
+                break;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 04ff8e6fea5335c9b116ef2d15994775f3c524e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 14/15] fix: keep whitespace after an unquoted key or method
 name out of the name

---
 src/path/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 5543918..4725741 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -401,14 +401,16 @@ impl<'a> PathParser<'a> {
                     let key = self.create_key::<false>(begin, self.pos)?;
                     self.push_step(Step::Descendent(key))
                 } else {
+                    // whitespace after the name is not part of it
+                    let end = self.pos;
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0


From 883df3b4c6a38eaf4db344c665d3e15c075a41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 15/15] fix: reserve memory before committing an entry, so that
 a push that runs out of memory changes nothing

---
 src/builder/array.rs  | 11 ++++++++---
 src/builder/object.rs | 18 ++++++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index f7f9238..70a087c 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -1,7 +1,8 @@
 //! Array builder.
 
 use crate::binary::{
-    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
+    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE,
+    OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
 use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
@@ -104,8 +105,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
         let depth = self.current_depth;
+        let size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * element_count as usize;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             check_nested_depth(depth)?;
+            bytes.try_reserve(size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -118,8 +121,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
         let depth = self.current_depth;
+        let size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             check_nested_depth(depth)?;
+            bytes.try_reserve(size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -145,9 +150,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     fn push_number(&mut self, value: &Number) -> BuildResult<()> {
         let size = MAX_BINARY_SIZE + NUMBER_LENGTH_SIZE;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             bytes.try_reserve(size)?;
             bytes.push_number(value);
+            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
         self.push_value(DataType::Number, f)
@@ -174,9 +179,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         let value = yason.as_bytes();
         let size = value.len();
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             bytes.try_reserve(size)?;
             bytes.extend_from_slice(value);
+            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
         self.push_value(data_type, f)
diff --git a/src/builder/object.rs b/src/builder/object.rs
index b25490a..ba86ef3 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -1,8 +1,8 @@
 //! Object builder.
 
 use crate::binary::{
-    BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    ARRAY_SIZE, BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{check_nested_depth, BuildResult, Depth, DEFAULT_SIZE};
@@ -195,7 +195,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
+        let size = key.len()
+            + KEY_LENGTH_SIZE
+            + DATA_TYPE_SIZE
+            + OBJECT_SIZE
+            + ELEMENT_COUNT_SIZE
+            + KEY_OFFSET_SIZE * element_count as usize;
         let depth = self.current_depth;
         self.push_key_value_by(key, size, |_| check_nested_depth(depth))?;
         let bytes = self.bytes.as_mut();
@@ -204,7 +209,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
+        let size = key.len()
+            + KEY_LENGTH_SIZE
+            + DATA_TYPE_SIZE
+            + ARRAY_SIZE
+            + ELEMENT_COUNT_SIZE
+            + VALUE_ENTRY_SIZE * element_count as usize;
         let depth = self.current_depth;
         self.push_key_value_by(key, size, |_| check_nested_depth(depth))?;
         let bytes = self.bytes.as_mut();
-- 
2.43.0

