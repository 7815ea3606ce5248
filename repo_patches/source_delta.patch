From 6c8e9f48a8ef4c79c44899d09ff324f9ec61d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 01/60] fix: delta_byte_array encoder: prefix never exceeds the
 item's own length

---
 src/encoding/delta_byte_array/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/encoder.rs b/src/encoding/delta_byte_array/encoder.rs
index 10f6511..9f51ff0 100644
--- a/src/encoding/delta_byte_array/encoder.rs
+++ b/src/encoding/delta_byte_array/encoder.rs
@@ -16,7 +16,7 @@ pub fn encode<'a, I: Iterator<Item = &'a [u8]> + Clone>(iterator: I, buffer: &mu
                 .enumerate()
                 // find first difference
                 .find_map(|(length, (lhs, rhs))| (lhs != rhs).then_some(length))
-                .unwrap_or(previous.len());
+                .unwrap_or_else(|| item.len().min(previous.len()));
             previous = item;
 
             sum_lengths += item.len() - prefix_length;
-- 
2.43.0


From 27f1caa1068e661537bfc0d7d229baf94f8eb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 02/60] fix: DELTA_BINARY_PACKED deltas wrap around instead of
 overflowing

---
 src/encoding/delta_bitpacked/decoder.rs | 11 ++++++-----
 src/encoding/delta_bitpacked/encoder.rs |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 86ce6c7..c5cf921 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -99,12 +99,13 @@ impl<'a> Iterator for Block<'a> {
         if self.remaining == 0 {
             return None;
         }
-        let result = self.min_delta
-            + self
-                .current_miniblock
+        // SPEC: deltas may overflow, in which case they wrap around
+        let result = self.min_delta.wrapping_add(
+            self.current_miniblock
                 .as_mut()
                 .map(|x| x.next().unwrap_or_default())
-                .unwrap_or(0) as i64;
+                .unwrap_or(0) as i64,
+        );
         self.current_index += 1;
         self.remaining -= 1;
 
@@ -234,7 +235,7 @@ impl<'a> Iterator for Decoder<'a> {
             Err(e) => return Some(Err(e)),
         };
 
-        self.next_value += delta;
+        self.next_value = self.next_value.wrapping_add(delta);
         result
     }
 
diff --git a/src/encoding/delta_bitpacked/encoder.rs b/src/encoding/delta_bitpacked/encoder.rs
index 7fa3b4a..f39fbcd 100644
--- a/src/encoding/delta_bitpacked/encoder.rs
+++ b/src/encoding/delta_bitpacked/encoder.rs
@@ -37,11 +37,12 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let mut max_delta = i64::MIN;
         let mut num_bits = 0;
         for (i, integer) in (0..128).zip(&mut iterator) {
-            let delta = integer - prev;
+            // SPEC: deltas may overflow, in which case they wrap around
+            let delta = integer.wrapping_sub(prev);
             min_delta = min_delta.min(delta);
             max_delta = max_delta.max(delta);
 
-            num_bits = 64 - (max_delta - min_delta).leading_zeros();
+            num_bits = 64 - max_delta.wrapping_sub(min_delta).leading_zeros();
             values[i] = delta;
             prev = integer;
         }
@@ -50,7 +51,7 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let values = &values[..consumed];
 
         values.iter().zip(deltas.iter_mut()).for_each(|(v, delta)| {
-            *delta = (v - min_delta) as u64;
+            *delta = v.wrapping_sub(min_delta) as u64;
         });
 
         // <min delta> <list of bitwidths of miniblocks> <miniblocks>
-- 
2.43.0


From 17ecbaf7a0ae18a6b9ac211c6ee4699ce13849aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 03/60] fix: ord_binary orders a strict prefix before the
 longer value

---
 src/types.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 3e73688..84ec296 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -114,21 +114,8 @@ pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
 
 /// Returns the ordering of two binary values.
 pub fn ord_binary<'a>(a: &'a [u8], b: &'a [u8]) -> std::cmp::Ordering {
-    use std::cmp::Ordering::*;
-    match (a.is_empty(), b.is_empty()) {
-        (true, true) => return Equal,
-        (true, false) => return Less,
-        (false, true) => return Greater,
-        (false, false) => {}
-    }
-
-    for (v1, v2) in a.iter().zip(b.iter()) {
-        match v1.cmp(v2) {
-            Equal => continue,
-            other => return other,
-        }
-    }
-    Equal
+    // lexicographic: a strict prefix of a value is smaller than the value
+    a.cmp(b)
 }
 
 #[inline]
-- 
2.43.0


From 7f98d1f795ec56416b297dcbb96d505a41e1605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 04/60] fix: column chunk statistics of binary values order a
 strict prefix first

---
 src/write/statistics.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..84dc7cf 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -122,7 +122,12 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
             _ => {}
         }
     }
-    a
+    // one is a prefix of the other: the shorter is the smaller
+    if (a.len() > b.len()) == max {
+        a
+    } else {
+        b
+    }
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From f4410216b434dd7aa2023c65d4e2b02922400414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 05/60] fix: column chunk statistics follow the sort order of
 the column's type

---
 src/write/statistics.rs | 63 +++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 84dc7cf..dce3abe 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -1,7 +1,8 @@
 use std::sync::Arc;
 
 use crate::error::{Error, Result};
-use crate::schema::types::PhysicalType;
+use crate::metadata::{get_sort_order, SortOrder};
+use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::statistics::*;
 use crate::types::NativeType;
 
@@ -15,13 +16,45 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
     }
 }
 
+/// The sort order that statistics of values of this type must follow
+fn sort_order(type_: &PrimitiveType) -> SortOrder {
+    get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    )
+}
+
+/// Orders big-endian two's complement integers (decimals) of any number of bytes
+fn ord_signed(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
+    let len = a.len().max(b.len());
+    let extend = |x: &[u8]| {
+        let is_negative = x.first().map_or(false, |x| x & 0x80 != 0);
+        let mut extended = vec![if is_negative { 0xff } else { 0 }; len];
+        extended[len - x.len()..].copy_from_slice(x);
+        (!is_negative, extended)
+    };
+    extend(a).cmp(&extend(b))
+}
+
 #[inline]
-fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
+fn reduce_vec8(
+    lhs: Option<Vec<u8>>,
+    rhs: &Option<Vec<u8>>,
+    max: bool,
+    order: SortOrder,
+) -> Option<Vec<u8>> {
     match (lhs, rhs) {
         (None, None) => None,
         (Some(x), None) => Some(x),
         (None, Some(x)) => Some(x.clone()),
-        (Some(x), Some(y)) => Some(ord_binary(x, y.clone(), max)),
+        (Some(x), Some(y)) => {
+            if order == SortOrder::Signed {
+                let is_less = ord_signed(&x, y) == std::cmp::Ordering::Less;
+                return Some(if is_less == max { y.clone() } else { x });
+            }
+            Some(ord_binary(x, y.clone(), max))
+        }
     }
 }
 
@@ -80,9 +113,10 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
 
 fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) -> BinaryStatistics {
     let initial = stats.next().unwrap().clone();
+    let order = sort_order(&initial.primitive_type);
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, order);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, order);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -93,9 +127,10 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     mut stats: I,
 ) -> FixedLenStatistics {
     let initial = stats.next().unwrap().clone();
+    let order = sort_order(&initial.primitive_type);
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, order);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, order);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -159,16 +194,26 @@ fn reduce_primitive<
     mut stats: I,
 ) -> PrimitiveStatistics<T> {
     let initial = stats.next().unwrap().clone();
+    let is_unsigned = sort_order(&initial.primitive_type) == SortOrder::Unsigned;
+    let is_greater = |x: &T, y: &T| {
+        if is_unsigned {
+            // little-endian => compare from the most significant byte
+            let (x, y) = (x.to_le_bytes(), y.to_le_bytes());
+            x.as_ref().iter().rev().gt(y.as_ref().iter().rev())
+        } else {
+            x > y
+        }
+    };
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_single(
             acc.min_value,
             new.min_value,
-            |x, y| if x > y { y } else { x },
+            |x, y| if is_greater(&x, &y) { y } else { x },
         );
         acc.max_value = reduce_single(
             acc.max_value,
             new.max_value,
-            |x, y| if x > y { x } else { y },
+            |x, y| if is_greater(&x, &y) { x } else { y },
         );
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
-- 
2.43.0


From 8923174146ea19ee32c6f5edb4b70bf3247ed120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 06/60] fix: write column chunks with Int96 statistics instead
 of panicking

---
 src/write/statistics.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index dce3abe..0f47c34 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -107,7 +107,10 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
+            Some(Arc::new(reduce_int96(stats)))
+        }
     })
 }
 
@@ -221,6 +224,29 @@ fn reduce_primitive<
     })
 }
 
+fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
+    mut stats: I,
+) -> PrimitiveStatistics<[u32; 3]> {
+    // most significant to least significant: the (julian) day and the nanoseconds of that day
+    let key = |x: &[u32; 3]| (x[2], x[1], x[0]);
+    let initial = stats.next().unwrap().clone();
+    stats.fold(initial, |mut acc, new| {
+        acc.min_value = reduce_single(
+            acc.min_value,
+            new.min_value,
+            |x, y| if key(&x) > key(&y) { y } else { x },
+        );
+        acc.max_value = reduce_single(
+            acc.max_value,
+            new.max_value,
+            |x, y| if key(&x) > key(&y) { x } else { y },
+        );
+        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.distinct_count = None;
+        acc
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use crate::schema::types::PrimitiveType;
-- 
2.43.0


From ce7b0e987977301f6c6b53c7e45b4fb58afce9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 07/60] fix: no column chunk statistics when some data pages
 have none

---
 src/write/column_chunk.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..a0b8530 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -22,7 +22,7 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -176,8 +176,17 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
-    let statistics = reduce(&statistics)?;
+    // the statistics of the chunk can only be derived when every data page has them
+    let statistics = specs
+        .iter()
+        .filter(|x| is_data_page(x))
+        .map(|x| &x.statistics)
+        .collect::<Vec<_>>();
+    let statistics = if statistics.iter().all(|x| x.is_some()) {
+        reduce(&statistics)?
+    } else {
+        None
+    };
     let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
-- 
2.43.0


From 33ea2909e64df64201e2377b7cefa1bc9b3f255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 08/60] fix: HybridRleBooleanIter continues past the first run

---
 src/deserialize/hybrid_rle.rs | 49 +++++++++++++++++------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..b0d6b03 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,41 +162,40 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
+        loop {
+            let item = match &mut self.current_run {
+                Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.next(),
+                Some(HybridBooleanState::Repeated(_, 0)) => None,
+                Some(HybridBooleanState::Repeated(value, remaining)) => {
                     *remaining -= 1;
                     Some(*value)
                 }
-                .map(Ok),
+                None => None,
+            };
+            if let Some(item) = item {
+                return Some(Ok(item));
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
-                HybridEncoded::Bitmap(bitmap, length) => {
-                    HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
+            // the run (if any) is exhausted: advance to the next one
+            self.current_run = match self.iter.next()? {
+                Ok(HybridEncoded::Bitmap(bitmap, length)) => Some(HybridBooleanState::Bitmap(
+                    BitmapIter::new(bitmap, 0, length),
+                )),
+                Ok(HybridEncoded::Repeated(value, length)) => {
+                    Some(HybridBooleanState::Repeated(value, length))
                 }
-                HybridEncoded::Repeated(value, length) => {
-                    HybridBooleanState::Repeated(value, length)
-                }
-            });
-            match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
-            }
-        } else {
-            None
+                Err(e) => return Some(Err(e)),
+            };
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let exact = self.iter.number_of_elements();
+        let current = match &self.current_run {
+            Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.size_hint().0,
+            Some(HybridBooleanState::Repeated(_, remaining)) => *remaining,
+            None => 0,
+        };
+        let exact = current + self.iter.number_of_elements();
         (exact, Some(exact))
     }
 }
-- 
2.43.0


From f7e6efa5e1b91028fc331a6134fc7e22de0aecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 09/60] fix: ULEB128 decoding reports malformed input as an
 error instead of panicking

---
 src/encoding/uleb128.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encoding/uleb128.rs b/src/encoding/uleb128.rs
index 5ca261e..cac1575 100644
--- a/src/encoding/uleb128.rs
+++ b/src/encoding/uleb128.rs
@@ -8,18 +8,18 @@ pub fn decode(values: &[u8]) -> Result<(u64, usize), Error> {
     for byte in values {
         consumed += 1;
         if shift == 63 && *byte > 1 {
-            panic!()
+            return Err(Error::oos("ULEB128 value does not fit in 64 bits"));
         };
 
         result |= u64::from(byte & 0b01111111) << shift;
 
         if byte & 0b10000000 == 0 {
-            break;
+            return Ok((result, consumed));
         }
 
         shift += 7;
     }
-    Ok((result, consumed))
+    Err(Error::oos("ULEB128 value ends before its last byte"))
 }
 
 /// Encodes `value` in ULEB128 into `container`. The exact number of bytes written
-- 
2.43.0


From a93440d10e4818234940e1553ee6c5ec87ae951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 10/60] fix: delta_bitpacked decoder reports malformed headers
 and blocks as errors

---
 src/encoding/delta_bitpacked/decoder.rs | 37 +++++++++++++++++--------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index c5cf921..54bc293 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -71,18 +71,22 @@ impl<'a> Block<'a> {
         self.current_miniblock = if num_bits > 0 {
             let length = std::cmp::min(self.remaining, self.values_per_mini_block);
 
-            let miniblock_length = ceil8(self.values_per_mini_block * num_bits);
-            if miniblock_length > self.values.len() {
-                return Err(Error::oos(
-                    "block must contain at least miniblock_length bytes (the mini block)",
-                ));
-            }
+            let miniblock_length = self
+                .values_per_mini_block
+                .checked_mul(num_bits)
+                .map(ceil8)
+                .filter(|miniblock_length| *miniblock_length <= self.values.len())
+                .ok_or_else(|| {
+                    Error::oos(
+                        "block must contain at least miniblock_length bytes (the mini block)",
+                    )
+                })?;
             let (miniblock, remainder) = self.values.split_at(miniblock_length);
 
             self.values = remainder;
             self.consumed_bytes += miniblock_length;
 
-            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length).unwrap())
+            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
         } else {
             None
         };
@@ -139,7 +143,9 @@ impl<'a> Decoder<'a> {
         let mut consumed_bytes = 0;
         let (block_size, consumed) = uleb128::decode(values)?;
         consumed_bytes += consumed;
-        assert_eq!(block_size % 128, 0);
+        if block_size % 128 != 0 {
+            return Err(Error::oos("The block size must be a multiple of 128"));
+        }
         values = &values[consumed..];
         let (num_mini_blocks, consumed) = uleb128::decode(values)?;
         let num_mini_blocks = num_mini_blocks as usize;
@@ -153,8 +159,14 @@ impl<'a> Decoder<'a> {
         consumed_bytes += consumed;
         values = &values[consumed..];
 
-        let values_per_mini_block = block_size as usize / num_mini_blocks;
-        assert_eq!(values_per_mini_block % 8, 0);
+        let values_per_mini_block = (block_size as usize)
+            .checked_div(num_mini_blocks)
+            .ok_or_else(|| Error::oos("The number of mini blocks must not be zero"))?;
+        if values_per_mini_block % 8 != 0 {
+            return Err(Error::oos(
+                "The number of values per mini block must be a multiple of 8",
+            ));
+        }
 
         // If we only have one value (first_value), there are no blocks.
         let current_block = if total_count > 1 {
@@ -232,7 +244,10 @@ impl<'a> Iterator for Decoder<'a> {
 
         let delta = match self.load_delta() {
             Ok(delta) => delta,
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.values_remaining = 0;
+                return Some(Err(e));
+            }
         };
 
         self.next_value = self.next_value.wrapping_add(delta);
-- 
2.43.0


From 76d1bd96728c613df8acd21c215ee65c8df4887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 11/60] fix: bitpacked decoder rejects widths and lengths
 beyond the type and the data

---
 src/encoding/bitpacked/decode.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/encoding/bitpacked/decode.rs b/src/encoding/bitpacked/decode.rs
index fa3f6a9..101ff87 100644
--- a/src/encoding/bitpacked/decode.rs
+++ b/src/encoding/bitpacked/decode.rs
@@ -28,19 +28,27 @@ fn decode_pack<T: Unpackable>(packed: &[u8], num_bits: usize, unpacked: &mut T::
 impl<'a, T: Unpackable> Decoder<'a, T> {
     /// Returns a [`Decoder`] with `T` encoded in `packed` with `num_bits`.
     pub fn try_new(packed: &'a [u8], num_bits: usize, mut length: usize) -> Result<Self, Error> {
-        let block_size = std::mem::size_of::<T>() * num_bits;
-
         if num_bits == 0 {
             return Err(Error::oos("Bitpacking requires num_bits > 0"));
         }
 
-        if packed.len() * 8 < length * num_bits {
+        if num_bits > std::mem::size_of::<T>() * 8 {
             return Err(Error::oos(format!(
-                "Unpacking {length} items with a number of bits {num_bits} requires at least {} bytes.",
-                length * num_bits / 8
+                "Bitpacking with {num_bits} bits does not fit in the unpacked type"
             )));
         }
 
+        if length
+            .checked_mul(num_bits)
+            .map_or(true, |required| packed.len() * 8 < required)
+        {
+            return Err(Error::oos(format!(
+                "Unpacking {length} items with a number of bits {num_bits} requires more than {} bytes.",
+                packed.len()
+            )));
+        }
+
+        let block_size = std::mem::size_of::<T>() * num_bits;
         let mut packed = packed.chunks(block_size);
         let mut unpacked = T::Unpacked::zero();
         if let Some(chunk) = packed.next() {
-- 
2.43.0


From 2aa7c2c774364bb9928c1d8b6c9682b5b037a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 12/60] fix: hybrid RLE decoders report truncated runs and too
 large widths as errors, and do not recurse

---
 src/encoding/hybrid_rle/decoder.rs | 13 ++++++++--
 src/encoding/hybrid_rle/mod.rs     | 41 +++++++++++++++++-------------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 2dae52b..5c0ba3b 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -38,7 +38,10 @@ impl<'a> Iterator for Decoder<'a> {
 
         let (indicator, consumed) = match uleb128::decode(self.values) {
             Ok((indicator, consumed)) => (indicator, consumed),
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.values = &[];
+                return Some(Err(e));
+            }
         };
         self.values = &self.values[consumed..];
         if self.values.is_empty() {
@@ -47,7 +50,7 @@ impl<'a> Iterator for Decoder<'a> {
 
         if indicator & 1 == 1 {
             // is bitpacking
-            let bytes = (indicator as usize >> 1) * self.num_bits;
+            let bytes = (indicator as usize >> 1).saturating_mul(self.num_bits);
             let bytes = std::cmp::min(bytes, self.values.len());
             let (result, remaining) = self.values.split_at(bytes);
             self.values = remaining;
@@ -57,6 +60,12 @@ impl<'a> Iterator for Decoder<'a> {
             let run_length = indicator as usize >> 1;
             // repeated-value := value that is repeated, using a fixed-width of round-up-to-next-byte(bit-width)
             let rle_bytes = ceil8(self.num_bits);
+            if rle_bytes > self.values.len() {
+                self.values = &[];
+                return Some(Err(Error::oos(
+                    "The value of an RLE run ends before its last byte",
+                )));
+            }
             let (result, remaining) = self.values.split_at(rle_bytes);
             self.values = remaining;
             Some(Ok(HybridEncoded::Rle(result, run_length)))
diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..2a5e5a4 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -66,6 +66,11 @@ fn read_next<'a, 'b>(decoder: &'b mut Decoder<'a>, remaining: usize) -> Result<S
 impl<'a> HybridRleDecoder<'a> {
     /// Returns a new [`HybridRleDecoder`]
     pub fn try_new(data: &'a [u8], num_bits: u32, num_values: usize) -> Result<Self, Error> {
+        if num_bits > u32::BITS {
+            return Err(Error::oos(format!(
+                "Hybrid RLE of u32 requires at most 32 bits, got {num_bits}"
+            )));
+        }
         let num_bits = num_bits as usize;
         let mut decoder = Decoder::new(data, num_bits);
         let state = read_next(&mut decoder, num_values)?;
@@ -84,26 +89,28 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
+            // the run is exhausted: advance to the next one (which may be empty)
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
+                Ok(state) => self.state = state,
+                Err(e) => {
+                    self.remaining = 0;
+                    return Some(Err(e));
                 }
-                Err(e) => Some(Err(e)),
             }
         }
     }
-- 
2.43.0


From 8dad673e42218c07a2a9ed9d3ccd8a4357cc5f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 13/60] fix: v2 pages with invalid level lengths are errors
 instead of panics

---
 src/page/mod.rs          | 10 ++++++++--
 src/read/compression.rs  |  5 +++--
 src/write/compression.rs | 17 ++++++++---------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..05c310e 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,10 +403,16 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
+    let levels_length = rep_level_buffer_length
+        .checked_add(def_level_buffer_length)
+        .filter(|levels_length| *levels_length <= buffer.len())
+        .ok_or_else(|| {
+            Error::oos("The number of bytes declared in v2 levels is higher than the page size")
+        })?;
     Ok((
         &buffer[..rep_level_buffer_length],
-        &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-        &buffer[rep_level_buffer_length + def_level_buffer_length..],
+        &buffer[rep_level_buffer_length..levels_length],
+        &buffer[levels_length..],
     ))
 }
 
diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..07e5e75 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,9 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let def_level_buffer_length: usize = page_header.definition_levels_byte_length.try_into()?;
+    let rep_level_buffer_length: usize = page_header.repetition_levels_byte_length.try_into()?;
+    let offset = def_level_buffer_length + rep_level_buffer_length;
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..c2833c4 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -1,6 +1,6 @@
 use crate::compression::CompressionOptions;
 use crate::error::{Error, Result};
-use crate::page::{CompressedDictPage, CompressedPage, DataPageHeader, DictPage};
+use crate::page::{split_buffer_v2, CompressedDictPage, CompressedPage, DataPageHeader, DictPage};
 use crate::FallibleStreamingIterator;
 use crate::{
     compression,
@@ -26,15 +26,14 @@ fn compress_data(
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
             DataPageHeader::V2(header) => {
-                let levels_byte_length = (header.repetition_levels_byte_length
-                    + header.definition_levels_byte_length)
-                    as usize;
-                compressed_buffer.extend_from_slice(&buffer[..levels_byte_length]);
-                compression::compress(
-                    compression,
-                    &buffer[levels_byte_length..],
-                    &mut compressed_buffer,
+                let (rep_levels, def_levels, values) = split_buffer_v2(
+                    &buffer,
+                    header.repetition_levels_byte_length.try_into()?,
+                    header.definition_levels_byte_length.try_into()?,
                 )?;
+                compressed_buffer.extend_from_slice(rep_levels);
+                compressed_buffer.extend_from_slice(def_levels);
+                compression::compress(compression, values, &mut compressed_buffer)?;
             }
         };
     } else {
-- 
2.43.0


From 631c8bfa8ade8d0edeb21bb4bb27e2e47f5b1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 14/60] fix: page states report empty dictionary indices and
 zero-sized items as errors; empty row intervals select nothing

---
 src/deserialize/fixed_len.rs |  6 ++++++
 src/deserialize/utils.rs     | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index 7aecda8..e3918d4 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -77,6 +77,12 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
             ));
         };
 
+        if size == 0 {
+            return Err(Error::oos(
+                "The size of a FixedLenByteArray must be larger than zero",
+            ));
+        }
+
         match (page.encoding(), dict, is_optional) {
             (Encoding::PlainDictionary | Encoding::RleDictionary, Some(dict), false) => {
                 Dictionary::try_new(page, dict).map(Self::RequiredDictionary)
diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 0d0135e..6339ef8 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -15,7 +15,9 @@ pub(super) fn dict_indices_decoder(page: &DataPage) -> Result<hybrid_rle::Hybrid
 
     // SPEC: Data page format: the bit width used to encode the entry ids stored as 1 byte (max bit width = 32),
     // SPEC: followed by the values encoded using RLE/Bit packed described above (with the given bit width).
-    let bit_width = indices_buffer[0];
+    let bit_width = *indices_buffer
+        .first()
+        .ok_or_else(|| Error::oos("A dictionary-encoded page must contain the bit width"))?;
     if bit_width > 32 {
         return Err(Error::oos(
             "Bit width of dictionary pages cannot be larger than 32",
@@ -123,7 +125,14 @@ impl<T, I: Iterator<Item = T>> Iterator for SliceFilteredIter<I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_remaining == 0 {
-            if let Some(interval) = self.selected_rows.pop_front() {
+            // empty intervals select nothing
+            let interval = loop {
+                match self.selected_rows.pop_front() {
+                    Some(interval) if interval.length == 0 => continue,
+                    other => break other,
+                }
+            };
+            if let Some(interval) = interval {
                 // skip the hole between the previous start and this start
                 // (start + length) - start
                 let item = self.iter.nth(interval.start - self.current);
-- 
2.43.0


From 8be66e1222237b59e191a1c23d697ccdfaa055b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 15/60] fix: byte-array decoders report invalid lengths as
 errors and stop at the declared number of items

---
 src/encoding/delta_byte_array/decoder.rs        | 14 ++++++++++----
 src/encoding/delta_length_byte_array/decoder.rs | 17 +++++++++++++++--
 src/encoding/plain_byte_array.rs                |  2 +-
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/encoding/delta_byte_array/decoder.rs b/src/encoding/delta_byte_array/decoder.rs
index 6e8f208..ecfc94a 100644
--- a/src/encoding/delta_byte_array/decoder.rs
+++ b/src/encoding/delta_byte_array/decoder.rs
@@ -24,9 +24,11 @@ impl<'a> Decoder<'a> {
 
     pub fn into_lengths(self) -> Result<delta_length_byte_array::Decoder<'a>, Error> {
         assert_eq!(self.prefix_lengths.size_hint().0, 0);
-        delta_length_byte_array::Decoder::try_new(
-            &self.values[self.prefix_lengths.consumed_bytes()..],
-        )
+        let values = self
+            .values
+            .get(self.prefix_lengths.consumed_bytes()..)
+            .ok_or_else(|| Error::oos("The prefix lengths are larger than the page"))?;
+        delta_length_byte_array::Decoder::try_new(values)
     }
 }
 
@@ -34,7 +36,11 @@ impl<'a> Iterator for Decoder<'a> {
     type Item = Result<u32, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.prefix_lengths.next().map(|x| x.map(|x| x as u32))
+        self.prefix_lengths.next().map(|x| {
+            x.and_then(|x| {
+                u32::try_from(x).map_err(|_| Error::oos("The length of a prefix is invalid"))
+            })
+        })
     }
 }
 
diff --git a/src/encoding/delta_length_byte_array/decoder.rs b/src/encoding/delta_length_byte_array/decoder.rs
index cdedd09..834892e 100644
--- a/src/encoding/delta_length_byte_array/decoder.rs
+++ b/src/encoding/delta_length_byte_array/decoder.rs
@@ -71,8 +71,21 @@ impl<'a> Iterator for Decoder<'a> {
         let result = self.lengths.next();
         match result {
             Some(Ok(v)) => {
-                self.total_length += v as u32;
-                Some(Ok(v as i32))
+                let length = match i32::try_from(v) {
+                    Ok(length) if length >= 0 => length,
+                    _ => return Some(Err(Error::oos("The length of a byte array is invalid"))),
+                };
+                // the values of all items start after all lengths
+                let available = self.values.len() - self.lengths.consumed_bytes();
+                match self.total_length.checked_add(length as u32) {
+                    Some(total_length) if total_length as usize <= available => {
+                        self.total_length = total_length;
+                        Some(Ok(length))
+                    }
+                    _ => Some(Err(Error::oos(
+                        "The lengths of the byte arrays are larger than the values",
+                    ))),
+                }
             }
             Some(Err(error)) => Some(Err(error)),
             None => None,
diff --git a/src/encoding/plain_byte_array.rs b/src/encoding/plain_byte_array.rs
index d549e94..7da394b 100644
--- a/src/encoding/plain_byte_array.rs
+++ b/src/encoding/plain_byte_array.rs
@@ -21,7 +21,7 @@ impl<'a> Iterator for BinaryIter<'a> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.values.len() < 4 {
+        if self.values.len() < 4 || self.length == Some(0) {
             return None;
         }
         if let Some(x) = self.length.as_mut() {
-- 
2.43.0


From e505f794a34c1cdbf1a5e01fc45abe6b6fb5755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 16/60] fix: reading a too deeply nested schema is an error
 instead of a stack overflow

---
 src/schema/io_message/from_message.rs | 21 ++++++++++++++-------
 src/schema/io_thrift/from_thrift.rs   | 17 ++++++++++++++---
 src/schema/mod.rs                     |  4 ++++
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..16df64f 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -298,7 +298,7 @@ impl<'a> Parser<'a> {
                     .tokenizer
                     .next()
                     .ok_or_else(|| Error::oos("Expected name, found None"))?;
-                let fields = self.parse_child_types()?;
+                let fields = self.parse_child_types(0)?;
                 Ok(ParquetType::new_root(name.to_string(), fields))
             }
             _ => Err(Error::oos("Message type does not start with 'message'")),
@@ -307,7 +307,12 @@ impl<'a> Parser<'a> {
 
     // Parses child types for a current group type.
     // This is only invoked on root and group types.
-    fn parse_child_types(&mut self) -> Result<Vec<ParquetType>> {
+    fn parse_child_types(&mut self, depth: usize) -> Result<Vec<ParquetType>> {
+        if depth > MAX_SCHEMA_DEPTH {
+            return Err(Error::oos(format!(
+                "A schema can have at most {MAX_SCHEMA_DEPTH} nested groups"
+            )));
+        }
         assert_token(self.tokenizer.next(), "{")?;
         let mut vec = Vec::new();
         while let Some(value) = self.tokenizer.next() {
@@ -315,13 +320,13 @@ impl<'a> Parser<'a> {
                 break;
             } else {
                 self.tokenizer.backtrack();
-                vec.push(self.add_type()?);
+                vec.push(self.add_type(depth)?);
             }
         }
         Ok(vec)
     }
 
-    fn add_type(&mut self) -> Result<ParquetType> {
+    fn add_type(&mut self, depth: usize) -> Result<ParquetType> {
         // Parse repetition
         let repetition = self
             .tokenizer
@@ -330,7 +335,9 @@ impl<'a> Parser<'a> {
             .and_then(|v| repetition_from_str(&v.to_uppercase()))?;
 
         match self.tokenizer.next() {
-            Some(group) if group.to_uppercase() == "GROUP" => self.add_group_type(repetition),
+            Some(group) if group.to_uppercase() == "GROUP" => {
+                self.add_group_type(repetition, depth)
+            }
             Some(type_string) => {
                 let physical_type = type_from_str(&type_string.to_uppercase())?;
                 self.add_primitive_type(repetition, physical_type)
@@ -339,7 +346,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
+    fn add_group_type(&mut self, repetition: Repetition, depth: usize) -> Result<ParquetType> {
         // Parse name of the group type
         let name = self
             .tokenizer
@@ -368,7 +375,7 @@ impl<'a> Parser<'a> {
             None
         };
 
-        let fields = self.parse_child_types()?;
+        let fields = self.parse_child_types(depth + 1)?;
 
         Ok(ParquetType::from_converted(
             name.to_string(),
diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 68add24..1d1cffc 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -6,6 +6,7 @@ use crate::{
 };
 
 use super::super::types::ParquetType;
+use super::super::MAX_SCHEMA_DEPTH;
 
 impl ParquetType {
     /// Method to convert from Thrift.
@@ -13,7 +14,7 @@ impl ParquetType {
         let mut index = 0;
         let mut schema_nodes = Vec::new();
         while index < elements.len() {
-            let t = from_thrift_helper(elements, index)?;
+            let t = from_thrift_helper(elements, index, 0)?;
             index = t.0;
             schema_nodes.push(t.1);
         }
@@ -32,7 +33,17 @@ impl ParquetType {
 /// The first result is the starting index for the next Type after this one. If it is
 /// equal to `elements.len()`, then this Type is the last one.
 /// The second result is the result Type.
-fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize, ParquetType)> {
+fn from_thrift_helper(
+    elements: &[SchemaElement],
+    index: usize,
+    depth: usize,
+) -> Result<(usize, ParquetType)> {
+    if depth > MAX_SCHEMA_DEPTH {
+        return Err(Error::oos(format!(
+            "A schema can have at most {MAX_SCHEMA_DEPTH} nested groups"
+        )));
+    }
+
     // Whether or not the current node is root (message type).
     // There is only one message type node in the schema tree.
     let is_root_node = index == 0;
@@ -96,7 +107,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-                let child_result = from_thrift_helper(elements, next_index)?;
+                let child_result = from_thrift_helper(elements, next_index, depth + 1)?;
                 next_index = child_result.0;
                 fields.push(child_result.1);
             }
diff --git a/src/schema/mod.rs b/src/schema/mod.rs
index 8610084..c7dfb8d 100644
--- a/src/schema/mod.rs
+++ b/src/schema/mod.rs
@@ -6,3 +6,7 @@ pub mod io_message;
 pub mod io_thrift;
 
 pub mod types;
+
+/// The maximum number of groups nested in each other accepted when a schema is read, so that
+/// reading it does not exhaust the stack.
+const MAX_SCHEMA_DEPTH: usize = 256;
-- 
2.43.0


From 58a12309ff4901ab81068f750a8fc0e07f22c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 17/60] fix: a source that ends within the footer is an error
 instead of a panic

---
 src/read/metadata.rs | 8 ++++++++
 src/read/stream.rs   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..a8b6541 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -59,6 +59,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         .take(default_end_len as u64)
         .read_to_end(&mut buffer)?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is smaller than its declared size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("The file must end with PAR1"));
@@ -87,6 +91,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         buffer.try_reserve(footer_len as usize)?;
         reader.take(footer_len).read_to_end(&mut buffer)?;
 
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is smaller than its declared size"));
+        }
+
         &buffer
     };
 
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..75abbf4 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -47,6 +47,10 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         .read_to_end(&mut buffer)
         .await?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is smaller than its declared size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("Invalid Parquet file. Corrupt footer"));
@@ -77,6 +81,10 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
             .read_to_end(&mut buffer)
             .await?;
 
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is smaller than its declared size"));
+        }
+
         &buffer
     };
 
-- 
2.43.0


From 075debdb751846f7daaeaf978d8959f2841681b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 18/60] fix: missing column orders and empty boolean bounds do
 not panic

---
 src/indexes/index.rs          | 11 ++++++++---
 src/metadata/file_metadata.rs |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index 8242ac2..6d4eea2 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -272,6 +272,13 @@ pub struct BooleanIndex {
     pub boundary_order: BoundaryOrder,
 }
 
+fn decode_bool(value: &[u8]) -> Result<bool, Error> {
+    value
+        .first()
+        .map(|value| *value == 1)
+        .ok_or_else(|| Error::oos("The bounds of a boolean page index must not be empty"))
+}
+
 impl BooleanIndex {
     pub(crate) fn try_new(index: ColumnIndex) -> Result<Self, Error> {
         let len = index.min_values.len();
@@ -291,9 +298,7 @@ impl BooleanIndex {
                 let (min, max) = if is_null {
                     (None, None)
                 } else {
-                    let min = min[0] == 1;
-                    let max = max[0] == 1;
-                    (Some(min), Some(max))
+                    (Some(decode_bool(&min)?), Some(decode_bool(&max)?))
                 };
                 Ok(PageIndex {
                     min,
diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..9239203 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -55,7 +55,7 @@ impl FileMetaData {
     pub fn column_order(&self, i: usize) -> ColumnOrder {
         self.column_orders
             .as_ref()
-            .map(|data| data[i])
+            .and_then(|data| data.get(i).copied())
             .unwrap_or(ColumnOrder::Undefined)
     }
 
-- 
2.43.0


From 013b8872b0bbe9854ad40690960493bd61b5c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 19/60] fix: read_column errors when the source ends within the
 column, and does not allocate the declared length upfront

---
 src/read/column/mod.rs    |  3 +--
 src/read/column/stream.rs |  7 ++++---
 src/read/mod.rs           | 29 ++++++++++++++++++++++++++++-
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..713d308 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -195,8 +195,7 @@ where
     reader.seek(std::io::SeekFrom::Start(start))?;
 
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
-    reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    super::read_region(reader, length, &mut chunk)?;
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..df10db6 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -3,7 +3,7 @@ use futures::{AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt};
 
 use crate::error::Error;
 use crate::metadata::ColumnChunkMetaData;
-use crate::read::get_field_columns;
+use crate::read::{check_region, get_field_columns, MAX_INITIAL_RESERVE};
 
 /// Reads a single column chunk into memory asynchronously
 pub async fn read_column_async<'b, R, F>(
@@ -19,8 +19,9 @@ where
     reader.seek(std::io::SeekFrom::Start(start)).await?;
 
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
-    reader.take(length as u64).read_to_end(&mut chunk).await?;
+    chunk.try_reserve(length.min(MAX_INITIAL_RESERVE) as usize)?;
+    reader.take(length).read_to_end(&mut chunk).await?;
+    check_region(length, &chunk)?;
     Result::Ok(chunk)
 }
 
diff --git a/src/read/mod.rs b/src/read/mod.rs
index 499147c..677df1e 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -23,7 +23,10 @@ pub use page::{IndexedPageReader, PageFilter, PageIterator, PageMetaData, PageRe
 pub use stream::read_metadata as read_metadata_async;
 
 use crate::metadata::{ColumnChunkMetaData, RowGroupMetaData};
-use crate::{error::Result, metadata::FileMetaData};
+use crate::{
+    error::{Error, Result},
+    metadata::FileMetaData,
+};
 
 pub use indexes::{read_columns_indexes, read_pages_locations};
 
@@ -76,6 +79,30 @@ pub fn get_field_columns<'a>(
         .filter(move |x| x.descriptor().path_in_schema[0] == field_name)
 }
 
+/// The number of bytes reserved to read a region, before its content is available.
+const MAX_INITIAL_RESERVE: u64 = 1024 * 1024;
+
+/// Clears `buffer` and reads exactly `length` bytes to it.
+/// `length` usually is declared by the file and therefore it is not used to reserve more than
+/// [`MAX_INITIAL_RESERVE`] bytes ahead of the data.
+/// # Errors
+/// Errors iff the reader errors or it ends before `length` bytes.
+fn read_region<R: Read>(reader: &mut R, length: u64, buffer: &mut Vec<u8>) -> Result<()> {
+    buffer.clear();
+    buffer.try_reserve(length.min(MAX_INITIAL_RESERVE) as usize)?;
+    reader.by_ref().take(length).read_to_end(buffer)?;
+    check_region(length, buffer)
+}
+
+fn check_region(length: u64, buffer: &[u8]) -> Result<()> {
+    if buffer.len() as u64 != length {
+        return Err(Error::oos(
+            "The file ends before the region that it declares",
+        ));
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use std::fs::File;
-- 
2.43.0


From 848be11a849d3708933fd4e9d21bd40b189b9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 20/60] fix: page indexes are read from each chunk's own
 offset, within the file's bounds

---
 src/read/indexes/read.rs | 122 +++++++++++++++------------------------
 1 file changed, 45 insertions(+), 77 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..bc77dca 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -8,108 +8,75 @@ use crate::error::Error;
 use crate::indexes::Index;
 use crate::metadata::ColumnChunkMetaData;
 
+use super::super::read_region;
 use super::deserialize::deserialize;
 
+/// Returns the regions `(start, length)` of each chunk's index, or an empty vector when
+/// the indexes are not available.
 fn prepare_read<F: Fn(&ColumnChunk) -> Option<i64>, G: Fn(&ColumnChunk) -> Option<i32>>(
     chunks: &[ColumnChunkMetaData],
     get_offset: F,
     get_length: G,
-) -> Result<(u64, Vec<usize>), Error> {
-    // c1: [start, length]
-    // ...
-    // cN: [start, length]
+) -> Result<Vec<(u64, u64)>, Error> {
+    let available = chunks
+        .first()
+        .map_or(false, |chunk| get_offset(chunk.column_chunk()).is_some());
+    if !available {
+        return Ok(vec![]);
+    }
 
-    let first_chunk = if let Some(chunk) = chunks.first() {
-        chunk
-    } else {
-        return Ok((0, vec![]));
-    };
-    let metadata = first_chunk.column_chunk();
-
-    let offset: u64 = if let Some(offset) = get_offset(metadata) {
-        offset.try_into()?
-    } else {
-        return Ok((0, vec![]));
-    };
-
-    let lengths = chunks
+    chunks
         .iter()
-        .map(|x| get_length(x.column_chunk()))
-        .map(|maybe_length| {
-            let index_length = maybe_length.ok_or_else(|| {
+        .map(|chunk| {
+            let chunk = chunk.column_chunk();
+            let offset = get_offset(chunk).ok_or_else(|| {
+                Error::oos("Either all or none of the column chunks must have an index")
+            })?;
+            let length = get_length(chunk).ok_or_else(|| {
                 Error::oos("The column length must exist if column offset exists")
             })?;
-
-            Ok(index_length.try_into()?)
+            Ok((offset.try_into()?, length.try_into()?))
         })
-        .collect::<Result<Vec<_>, Error>>()?;
-
-    Ok((offset, lengths))
+        .collect()
 }
 
-fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, u64)>, Error> {
     prepare_read(chunks, |x| x.column_index_offset, |x| x.column_index_length)
 }
 
-fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, u64)>, Error> {
     prepare_read(chunks, |x| x.offset_index_offset, |x| x.offset_index_length)
 }
 
-fn deserialize_column_indexes(
-    chunks: &[ColumnChunkMetaData],
-    data: &[u8],
-    lengths: Vec<usize>,
-) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut start = 0;
-    let data = lengths.into_iter().map(|length| {
-        let r = &data[start..start + length];
-        start += length;
-        r
-    });
-
-    chunks
-        .iter()
-        .zip(data)
-        .map(|(chunk, data)| {
-            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data, primitive_type)
-        })
-        .collect()
-}
-
 /// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
 /// Returns an empty vector if indexes are not available
 pub fn read_columns_indexes<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let (offset, lengths) = prepare_column_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
+    let regions = prepare_column_index_read(chunks)?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    chunks
+        .iter()
+        .zip(regions)
+        .map(|(chunk, (start, length))| {
+            reader.seek(SeekFrom::Start(start))?;
+            read_region(reader, length, &mut data)?;
 
-    deserialize_column_indexes(chunks, &data, lengths)
+            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
+            deserialize(&data, primitive_type)
+        })
+        .collect()
 }
 
-fn deserialize_page_locations(
-    data: &[u8],
-    column_number: usize,
-) -> Result<Vec<Vec<PageLocation>>, Error> {
+fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
     let len = data.len() * 2 + 1024;
     let mut reader = Cursor::new(data);
 
-    (0..column_number)
-        .map(|_| {
-            let mut prot = TCompactInputProtocol::new(&mut reader, len);
-            let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
-            Ok(offset.page_locations)
-        })
-        .collect()
+    let mut prot = TCompactInputProtocol::new(&mut reader, len);
+    let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
+    Ok(offset.page_locations)
 }
 
 /// Read [`PageLocation`]s from the [`ColumnChunkMetaData`]s.
@@ -118,15 +85,16 @@ pub fn read_pages_locations<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let (offset, lengths) = prepare_offset_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
+    let regions = prepare_offset_index_read(chunks)?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    regions
+        .into_iter()
+        .map(|(start, length)| {
+            reader.seek(SeekFrom::Start(start))?;
+            read_region(reader, length, &mut data)?;
 
-    deserialize_page_locations(&data, chunks.len())
+            deserialize_page_locations(&data)
+        })
+        .collect()
 }
-- 
2.43.0


From e4b94934545a5110a7b363339b32f6bc36dcd39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 21/60] fix: truncated or mis-sized bloom filters are errors,
 and their declared sizes are not allocated upfront

---
 src/bloom_filter/read.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..4107869 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -7,6 +7,9 @@ use parquet_format_safe::{
 
 use crate::{error::Error, metadata::ColumnChunkMetaData};
 
+/// The maximum number of bytes of the (small) header; unknown fields of it may declare any length.
+const MAX_HEADER_SIZE: usize = 1024 * 1024;
+
 /// Reads the bloom filter associated to [`ColumnChunkMetaData`] into `bitset`.
 /// Results in an empty `bitset` if there is no associated bloom filter or the algorithm is not supported.
 /// # Error
@@ -19,7 +22,7 @@ pub fn read<R: Read + Seek>(
     let offset = column_metadata.metadata().bloom_filter_offset;
 
     let offset = if let Some(offset) = offset {
-        offset as u64
+        offset.try_into()?
     } else {
         bitset.clear();
         return Ok(());
@@ -27,7 +30,7 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(&mut reader, usize::MAX); // max is ok since `BloomFilterHeader` never allocates
+    let mut prot = TCompactInputProtocol::new(&mut reader, MAX_HEADER_SIZE);
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
@@ -41,9 +44,21 @@ pub fn read<R: Read + Seek>(
 
     let length: usize = header.num_bytes.try_into()?;
 
+    if length == 0 || length % 32 != 0 {
+        bitset.clear();
+        return Err(Error::oos(
+            "The size of a bloom filter must be a non-zero multiple of 32 bytes",
+        ));
+    }
+
+    // `length` is declared by the file: `read_to_end` allocates according to what is available
     bitset.clear();
-    bitset.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
 
+    if bitset.len() != length {
+        bitset.clear();
+        return Err(Error::oos("The file ends before the end of the bloom filter"));
+    }
+
     Ok(())
 }
-- 
2.43.0


From 95dc446ac7ee12affc943b889dfffc5622aaeaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 22/60] fix: page readers do not recurse, reject negative
 counts, and report truncated or inconsistent pages

---
 src/read/page/indexed_reader.rs | 54 ++++++++++++++++-----------------
 src/read/page/reader.rs         | 30 ++++++++++--------
 src/read/page/stream.rs         |  7 ++++-
 3 files changed, 49 insertions(+), 42 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..24420b7 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -11,7 +11,8 @@ use crate::{
     parquet_bridge::Compression,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::super::read_region;
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -54,19 +55,22 @@ fn read_page<R: Read + Seek>(
     reader.seek(SeekFrom::Start(start))?;
 
     // read [header][data] to buffer
-    buffer.clear();
-    buffer.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(buffer)?;
+    read_region(reader, length as u64, buffer)?;
 
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
     let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    // validates the header
+    get_page_header(&page_header)?;
+    let data_size: usize = page_header.compressed_page_size.try_into()?;
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
     // copy [data]
     data.clear();
-    data.extend_from_slice(&buffer[header_size..]);
+    data.extend_from_slice(buffer[header_size..].get(..data_size).ok_or_else(|| {
+        Error::oos("The page header reported a page size larger than the page's location")
+    })?);
     Ok(page_header)
 }
 
@@ -154,11 +158,14 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // the column
         let (start, length) = match self.pages.get(0) {
             Some(page) => {
-                let length = (page.start - self.column_start) as usize;
-                if length > 0 {
-                    (self.column_start, length)
-                } else {
-                    return None;
+                match page.start.checked_sub(self.column_start) {
+                    Some(0) => return None,
+                    Some(length) => (self.column_start, length as usize),
+                    None => {
+                        return Some(Err(Error::oos(
+                            "The pages of a column must not start before the column",
+                        )))
+                    }
                 }
             }
             None => return None,
@@ -184,26 +191,17 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
     type Item = Result<CompressedPage, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::MaybeDict => {
-                self.state = State::Data;
-                if let Some(dict) = self.read_dict() {
-                    Some(dict)
-                } else {
-                    self.next()
-                }
+        if let State::MaybeDict = self.state {
+            self.state = State::Data;
+            if let Some(dict) = self.read_dict() {
+                return Some(dict);
             }
-            State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
-                    }
-                } else {
-                    None
-                }
+        }
+        while let Some(page) = self.pages.pop_front() {
+            if !page.selected_rows.is_empty() {
+                return Some(self.read_page(page.start, page.length, page.selected_rows));
             }
         }
+        None
     }
 }
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..3325517 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -141,22 +141,24 @@ impl<R: Read> Iterator for PageReader<R> {
     type Item = Result<CompressedPage>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        loop {
+            let mut buffer = std::mem::take(&mut self.scratch);
+            let maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            if let Some(ref maybe_page) = maybe_maybe_page {
+                if let Ok(CompressedPage::Data(page)) = maybe_page {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        self.scratch = std::mem::take(&mut buffer);
+                        continue;
+                    }
                 }
+            } else {
+                // no page => we take back the buffer
+                self.scratch = std::mem::take(&mut buffer);
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
+            return maybe_maybe_page;
         }
-        maybe_maybe_page
     }
 }
 
@@ -292,6 +294,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
 
             Some(DataPageHeader::V1(header))
         }
@@ -300,6 +303,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
             let _: Encoding = header.encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
             Some(DataPageHeader::V2(header))
         }
         _ => None,
diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..dbac856 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -95,7 +95,12 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let bytes_skipped = copy(reader.take(read_size as u64), &mut sink()).await?;
+                    if bytes_skipped != read_size as u64 {
+                        Err(Error::oos(
+                            "The page header reported the wrong page size".to_string(),
+                        ))?
+                    }
                     continue
                 }
             }
-- 
2.43.0


From 1b47e273bc023254fc0e03a519d58b1b7b249633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 23/60] fix: decompressing data that does not have the declared
 size is an error, and gzip members are all read

---
 src/compression.rs | 75 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..abd408b 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -129,17 +129,46 @@ pub fn compress(
     }
 }
 
-/// Decompresses data stored in slice `input_buf` and writes output to `output_buf`.
-/// Returns the total number of bytes written.
+/// Reads all of the stream of `reader` (over `input_buf`), that must fill `output_buf` exactly.
+#[cfg(any(feature = "brotli", feature = "gzip", feature = "zstd"))]
+fn decompress_stream<R: std::io::Read>(
+    mut reader: R,
+    input_buf: &[u8],
+    output_buf: &mut [u8],
+) -> Result<()> {
+    if input_buf.is_empty() && output_buf.is_empty() {
+        return Ok(());
+    }
+    reader.read_exact(output_buf)?;
+    // reading up to the end of the stream also verifies its checksum
+    if reader.read(&mut [0u8; 1])? != 0 {
+        return Err(Error::oos(
+            "The decompressed data is longer than its declared size",
+        ));
+    }
+    Ok(())
+}
+
+#[cfg(any(feature = "lz4", feature = "lz4_flex"))]
+fn check_decompressed_size(size: usize, expected: usize) -> Result<()> {
+    if size != expected {
+        return Err(Error::oos(format!(
+            "The decompressed data has {size} bytes, but {expected} bytes were declared"
+        )));
+    }
+    Ok(())
+}
+
+/// Decompresses data stored in slice `input_buf` to `output_buf`.
+/// # Error
+/// Errors iff the data is not valid or its decompressed size is not the length of `output_buf`.
 pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [u8]) -> Result<()> {
     match compression {
         #[cfg(feature = "brotli")]
         Compression::Brotli => {
-            use std::io::Read;
             const BROTLI_DEFAULT_BUFFER_SIZE: usize = 4096;
-            brotli::Decompressor::new(input_buf, BROTLI_DEFAULT_BUFFER_SIZE)
-                .read_exact(output_buf)
-                .map_err(|e| e.into())
+            let decoder = brotli::Decompressor::new(input_buf, BROTLI_DEFAULT_BUFFER_SIZE);
+            decompress_stream(decoder, input_buf, output_buf)
         }
         #[cfg(not(feature = "brotli"))]
         Compression::Brotli => Err(Error::FeatureNotActive(
@@ -148,9 +177,9 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         )),
         #[cfg(feature = "gzip")]
         Compression::Gzip => {
-            use std::io::Read;
-            let mut decoder = flate2::read::GzDecoder::new(input_buf);
-            decoder.read_exact(output_buf).map_err(|e| e.into())
+            // SPEC: readers should support reading pages containing multiple GZIP members
+            let decoder = flate2::read::MultiGzDecoder::new(input_buf);
+            decompress_stream(decoder, input_buf, output_buf)
         }
         #[cfg(not(feature = "gzip"))]
         Compression::Gzip => Err(Error::FeatureNotActive(
@@ -162,7 +191,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             use snap::raw::{decompress_len, Decoder};
 
             let len = decompress_len(input_buf)?;
-            if len > output_buf.len() {
+            if len != output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
             Decoder::new()
@@ -176,14 +205,18 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+        Compression::Lz4Raw => {
+            let size = lz4_flex::block::decompress_into(input_buf, output_buf)?;
+            check_decompressed_size(size, output_buf.len())
+        }
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
-            lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-                .map_err(|e| e.into())
+            let size = lz4::block::decompress_to_buffer(
+                input_buf,
+                Some(output_buf.len() as i32),
+                output_buf,
+            )?;
+            check_decompressed_size(size, output_buf.len())
         }
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
@@ -193,8 +226,9 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
 
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
         Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
-            lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
+            let size =
+                lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)?;
+            check_decompressed_size(size, output_buf.len())
         }),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
@@ -205,9 +239,8 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
 
         #[cfg(feature = "zstd")]
         Compression::Zstd => {
-            use std::io::Read;
-            let mut decoder = zstd::Decoder::new(input_buf)?;
-            decoder.read_exact(output_buf).map_err(|e| e.into())
+            let decoder = zstd::Decoder::new(input_buf)?;
+            decompress_stream(decoder, input_buf, output_buf)
         }
         #[cfg(not(feature = "zstd"))]
         Compression::Zstd => Err(Error::FeatureNotActive(
-- 
2.43.0


From 5e277c016e9eef44cf6f17e625a6f8200d490ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:18 +0000
Subject: [PATCH 24/60] fix: Hadoop-framed LZ4 with any number of frames of any
 size is decompressed

---
 src/compression.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index abd408b..c2e59d8 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -305,15 +305,13 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
         input_len -= expected_compressed_size as usize;
         output_len -= expected_decompressed_size as usize;
-        if input_len > expected_compressed_size as usize {
-            input = &input[expected_compressed_size as usize..];
-            output = &mut output[expected_decompressed_size as usize..];
-        } else {
-            break;
-        }
+        input = &input[expected_compressed_size as usize..];
+        output = &mut output[expected_decompressed_size as usize..];
     }
-    if input_len == 0 {
+    if input_len == 0 && output_len == 0 {
         Ok(())
+    } else if input_len == 0 {
+        Err(Error::oos("Not all output is filled"))
     } else {
         Err(Error::oos("Not all input are consumed"))
     }
-- 
2.43.0


From 8c6e91ebf2a664b32d04a41c0e173cfefc6c5972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 25/60] fix: the crate compiles with both lz4 and lz4_flex

---
 src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index c2e59d8..276c94f 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -317,7 +317,7 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
     }
 }
 
-#[cfg(all(feature = "lz4", not(feature = "lz4_flex")))]
+#[cfg(feature = "lz4")]
 #[inline]
 fn lz4_decompress_to_buffer(
     src: &[u8],
-- 
2.43.0


From d71c7c9d7741f7ae281347373622537179d7366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 26/60] fix: column chunk statistics do not claim what is
 unknown of some page

---
 src/write/column_chunk.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index a0b8530..aac423e 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -187,7 +187,24 @@ fn build_column_chunk(
     } else {
         None
     };
-    let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
+    let statistics = statistics.map(|x| {
+        let mut statistics = serialize_statistics(x.as_ref());
+        // what is not known of some data page is not known of the chunk
+        for spec in specs.iter().filter(|x| is_data_page(x)) {
+            let page = serialize_statistics(spec.statistics.as_ref().unwrap().as_ref());
+            let all_null = page.null_count == Some(spec.num_values as i64);
+            if page.min_value.is_none() && !all_null {
+                statistics.min_value = None;
+            }
+            if page.max_value.is_none() && !all_null {
+                statistics.max_value = None;
+            }
+            if page.null_count.is_none() {
+                statistics.null_count = None;
+            }
+        }
+        statistics
+    });
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
-- 
2.43.0


From 6405dd22a505d9ec1ea09ab7a0eb15fcd25545f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 27/60] fix: column indexes of many pages can be read back

---
 src/read/indexes/deserialize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index 10addf3..f551ff4 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -6,7 +6,8 @@ use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::indexes::{BooleanIndex, ByteIndex, FixedLenByteIndex, Index, NativeIndex};
 
 pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn Index>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    // the protocol accounts 8 bytes per item of a list, which may take a single byte in `data`
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 8 + 1024);
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
-- 
2.43.0


From 9efdaec0f2d18db5c2b1108d26fc8c6630c6aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 28/60] fix: empty intervals and empty pages do not select
 pages

---
 src/indexes/intervals.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index b3e3e00..15e46a4 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -101,10 +101,11 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
         .filter_map(|interval| {
             let interval_end = interval.start + interval.length;
             let probe_end = probe.start + probe.length;
-            let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
+            let start = interval.start.max(probe.start);
+            let end = interval_end.min(probe_end);
+            // they have at least one row in common
+            let overlaps = start < end;
             if overlaps {
-                let start = interval.start.max(probe.start);
-                let end = interval_end.min(probe_end);
                 Some(Interval::new(start - probe.start, end - start))
             } else {
                 None
-- 
2.43.0


From 4544b0ce343253641a9ac31212da9a7854ff5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:49 +0000
Subject: [PATCH 29/60] fix: Decompressor does not present an emptied page
 after an error

---
 src/read/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 07e5e75..71113e1 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -194,7 +194,8 @@ impl<P: PageIterator> FallibleStreamingIterator for Decompressor<P> {
     type Error = Error;
 
     fn advance(&mut self) -> Result<()> {
-        if let Some(page) = self.current.as_mut() {
+        // the page is no longer available, even if an error follows
+        if let Some(mut page) = self.current.take() {
             if self.was_decompressed {
                 self.buffer = std::mem::take(page.buffer());
             } else {
-- 
2.43.0


From a859c89a3c63a7b35e05c98576d9a7809feda0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 30/60] fix: Compressor does not present an emptied page after
 an error

---
 src/write/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index c2833c4..dfe8ebf 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -138,7 +138,8 @@ impl<I: Iterator<Item = Result<Page>>> FallibleStreamingIterator for Compressor<
     type Error = Error;
 
     fn advance(&mut self) -> std::result::Result<(), Self::Error> {
-        let mut compressed_buffer = if let Some(page) = self.current.as_mut() {
+        // the page is no longer available, even if an error follows
+        let mut compressed_buffer = if let Some(mut page) = self.current.take() {
             std::mem::take(page.buffer())
         } else {
             std::mem::take(&mut self.buffer)
-- 
2.43.0


From 3dc7be421b23c6184c7a09b946955c67c990a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 31/60] fix: compress does not prepend the previous content of
 its buffer to the page

---
 src/write/compression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index dfe8ebf..2b5d646 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -83,9 +83,11 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    // its content is not part of the page
+    compressed_buffer.clear();
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
-- 
2.43.0


From e31bf99e1ab1dd64c405c1e983b4da44a4e76b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 32/60] fix: BasicDecompressor does not present an emptied page
 after an error

---
 src/read/compression.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 71113e1..0bb6f95 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -253,6 +253,8 @@ impl streaming_decompression::Decompressed for Page {
 /// If the pages are not compressed, the internal buffer is not used.
 pub struct BasicDecompressor<I: Iterator<Item = Result<CompressedPage>>> {
     iter: _Decompressor<I>,
+    // whether the last advance failed, in which case there is no page available
+    has_failed: bool,
 }
 
 impl<I> BasicDecompressor<I>
@@ -263,6 +265,7 @@ where
     pub fn new(iter: I, buffer: Vec<u8>) -> Self {
         Self {
             iter: _Decompressor::new(iter, buffer, decompress),
+            has_failed: false,
         }
     }
 
@@ -280,10 +283,15 @@ where
     type Error = Error;
 
     fn advance(&mut self) -> Result<()> {
-        self.iter.advance()
+        let result = self.iter.advance();
+        self.has_failed = result.is_err();
+        result
     }
 
     fn get(&self) -> Option<&Self::Item> {
+        if self.has_failed {
+            return None;
+        }
         self.iter.get()
     }
 }
-- 
2.43.0


From 4a08de7e12e5f0264b9a10b2c213549babcb09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:49 +0000
Subject: [PATCH 33/60] fix: a schema without fields is read back and negative
 numbers of children are rejected

---
 src/schema/io_thrift/from_thrift.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 1d1cffc..80f6f79 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -55,13 +55,18 @@ fn from_thrift_helper(
     let converted_type = element.converted_type;
 
     let id = element.field_id;
-    match element.num_children {
+    // a node with zero children that has no physical type is a group without fields
+    let num_children = match element.num_children {
+        Some(0) if element.type_.is_some() => None,
+        other => other,
+    };
+    match num_children {
         // From parquet-format:
         //   The children count is used to construct the nested relationship.
         //   This field is not set when the element is a primitive type
         // Sometimes parquet-cpp sets num_children field to 0 for primitive types, so we
         // have to handle this case too.
-        None | Some(0) => {
+        None => {
             // primitive type
             let repetition = element
                 .repetition_type
@@ -103,6 +108,7 @@ fn from_thrift_helper(
 
             Ok((index + 1, tp))
         }
+        Some(n) if n < 0 => Err(Error::oos("The number of children must be non-negative")),
         Some(n) => {
             let mut fields = vec![];
             let mut next_index = index + 1;
-- 
2.43.0


From cf9b62b0fe35717bef94153599e4f9ebd757d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 34/60] fix: the scale of a converted decimal is 0 when it is
 not specified

---
 src/schema/io_thrift/from_thrift.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 80f6f79..e818757 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -79,11 +79,12 @@ fn from_thrift_helper(
             let converted_type = converted_type
                 .map(|converted_type| {
                     let maybe_decimal = match (element.precision, element.scale) {
-                        (Some(precision), Some(scale)) => Some((precision, scale)),
+                        // the scale is 0 when it is not specified
+                        (Some(precision), scale) => Some((precision, scale.unwrap_or(0))),
                         (None, None) => None,
-                        _ => {
+                        (None, Some(_)) => {
                             return Err(Error::oos(
-                                "When precision or scale are defined, both must be defined",
+                                "When the scale is defined, the precision must be defined",
                             ))
                         }
                     };
-- 
2.43.0


From 52508f98c266bf38157e67397594d4f28bda4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 35/60] fix: the INTERVAL annotation of the message syntax is a
 converted type

---
 src/schema/io_message/from_message.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 16df64f..7509ec4 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -66,7 +66,6 @@ fn is_logical_type(s: &str) -> bool {
             | "BSON"
             | "UUID"
             | "UNKNOWN"
-            | "INTERVAL"
     )
 }
 
@@ -618,7 +617,6 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
             _ => unreachable!(),
         })
     }
-- 
2.43.0


From f7d9a9307b1a8fff5d6201886b2b34ab2b6ea18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:24 +0000
Subject: [PATCH 36/60] fix: the maximum precision of decimals of large
 fixed-length arrays

---
 src/schema/types/spec.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index ce5772b..36a427b 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -41,15 +41,13 @@ fn check_decimal_invariants(
         }
         PhysicalType::FixedLenByteArray(length) => {
             let oos_error = || Error::oos(format!("Byte Array length {} out of spec", length));
-            let max_precision = (2f64.powi(
-                (*length as i32)
-                    .checked_mul(8)
-                    .ok_or_else(oos_error)?
-                    .checked_sub(1)
-                    .ok_or_else(oos_error)?,
-            ) - 1f64)
-                .log10()
-                .floor() as usize;
+            // floor(log10(2^(8 * length - 1) - 1)), without computing the power as it overflows
+            let bits = i32::try_from(*length)
+                .ok()
+                .and_then(|length| length.checked_mul(8))
+                .and_then(|bits| bits.checked_sub(1))
+                .ok_or_else(oos_error)?;
+            let max_precision = (bits as f64 * std::f64::consts::LOG10_2).floor() as usize;
 
             if precision > max_precision {
                 return Err(Error::oos(format!(
-- 
2.43.0


From 829803a6736803f2742b686d10f7c41bd12f52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 37/60] fix: LIST and MAP annotating a primitive type in a
 message are an error

---
 src/schema/io_message/from_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 7509ec4..ad20c05 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -617,7 +617,12 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            _ => unreachable!(),
+            other => {
+                return Err(Error::oos(format!(
+                    "{} cannot annotate a primitive type",
+                    other
+                )))
+            }
         })
     }
 }
-- 
2.43.0


From 5bbdaf033bad45f3463eff6e8ff46c37951c120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:07 +0000
Subject: [PATCH 38/60] fix: footers with lists of many small elements are read

---
 src/read/metadata.rs | 5 +++--
 src/read/stream.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index a8b6541..bbe9b09 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -98,8 +98,9 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         &buffer
     };
 
-    // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    // a highly nested but sparse struct could result in many allocations. Elements of a list have
+    // at least one byte and are accounted with the size of an `usize`
+    let max_size = reader.len() * std::mem::size_of::<usize>() + 1024;
 
     deserialize_metadata(reader, max_size)
 }
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 75abbf4..ca733b7 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -88,8 +88,9 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         &buffer
     };
 
-    // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    // a highly nested but sparse struct could result in many allocations. Elements of a list have
+    // at least one byte and are accounted with the size of an `usize`
+    let max_size = reader.len() * std::mem::size_of::<usize>() + 1024;
 
     deserialize_metadata(reader, max_size)
 }
-- 
2.43.0


From 6b020fb38af036877babe80b5465a000af1a1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:17 +0000
Subject: [PATCH 39/60] fix: FileMetaData::into_thrift keeps the column orders

---
 src/metadata/file_metadata.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 9239203..10a86f5 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -97,7 +97,13 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self.column_orders.map(|orders| {
+                orders
+                    .iter()
+                    .take_while(|order| matches!(order, ColumnOrder::TypeDefinedOrder(_)))
+                    .map(|_| TColumnOrder::TYPEORDER(Default::default()))
+                    .collect()
+            }),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
-- 
2.43.0


From 7a20e9f56b0d47a7dced6e62092b093a8ec80555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:39 +0000
Subject: [PATCH 40/60] fix: column chunk metadata can be serialized with serde

---
 src/metadata/column_chunk_metadata.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e92c90b..7101097 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -48,8 +48,7 @@ where
     S: Serializer,
 {
     let mut buf = vec![];
-    let cursor = Cursor::new(&mut buf[..]);
-    let mut protocol = TCompactOutputProtocol::new(cursor);
+    let mut protocol = TCompactOutputProtocol::new(&mut buf);
     column_chunk
         .write_to_out_protocol(&mut protocol)
         .map_err(S::Error::custom)?;
-- 
2.43.0


From bed213de3f17525a95cb1e7bb14a47c4d0c048ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:17 +0000
Subject: [PATCH 41/60] fix: files declare the column orders of the statistics
 written to them

---
 src/write/file.rs   | 14 ++++++++++++--
 src/write/stream.rs |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..2d8243c 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -1,7 +1,7 @@
 use std::io::Write;
 
 use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
-use parquet_format_safe::RowGroup;
+use parquet_format_safe::{ColumnOrder, RowGroup};
 
 use crate::metadata::ThriftFileMetaData;
 use crate::{
@@ -40,6 +40,16 @@ pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaDa
     Ok(metadata_len as u64 + FOOTER_SIZE)
 }
 
+/// The column orders of a file: the orders defined by the columns' types. Without them, the
+/// meaning of the minimum and maximum values in statistics and column indexes is undefined.
+pub(super) fn column_orders(schema: &SchemaDescriptor) -> Vec<ColumnOrder> {
+    schema
+        .columns()
+        .iter()
+        .map(|_| ColumnOrder::TYPEORDER(Default::default()))
+        .collect()
+}
+
 /// An interface to write a parquet file.
 /// Use `start` to write the header, `write` to write a row group,
 /// and `end` to write the footer.
@@ -220,7 +230,7 @@ impl<W: Write> FileWriter<W> {
             self.row_groups.clone(),
             key_value_metadata,
             self.created_by.clone(),
-            None,
+            column_orders(&self.schema),
             None,
             None,
         );
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..d9ca626 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -13,7 +13,7 @@ use crate::{
     FOOTER_SIZE, PARQUET_MAGIC,
 };
 
-use super::{row_group::write_row_group_async, RowGroupIter, WriteOptions};
+use super::{file::column_orders, row_group::write_row_group_async, RowGroupIter, WriteOptions};
 
 async fn start_file<W: AsyncWrite + Unpin>(writer: &mut W) -> Result<u64> {
     writer.write_all(&PARQUET_MAGIC).await?;
@@ -178,7 +178,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
             self.row_groups.clone(),
             key_value_metadata,
             self.created_by.clone(),
-            None,
+            column_orders(&self.schema),
             None,
             None,
         );
-- 
2.43.0


From 79f474a235e738fab5eb2d66d82a9fca707f3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 42/60] fix: write_all is used for thrift structures, as
 Write::write may write nothing or be interrupted

---
 src/write/column_chunk.rs  | 33 +++++++++++++++-------------
 src/write/file.rs          | 14 +++++++++---
 src/write/indexes/write.rs | 44 +++++++++++++++++++++++++-------------
 src/write/page.rs          | 23 +++++++++++++-------
 src/write/stream.rs        | 12 ++++++-----
 5 files changed, 80 insertions(+), 46 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index aac423e..39dfab6 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -5,9 +5,7 @@ use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 use parquet_format_safe::{ColumnChunk, ColumnMetaData, Type};
 
 #[cfg(feature = "async")]
-use futures::AsyncWrite;
-#[cfg(feature = "async")]
-use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
+use futures::{AsyncWrite, AsyncWriteExt};
 
 use crate::statistics::serialize_statistics;
 use crate::FallibleStreamingIterator;
@@ -52,12 +50,9 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputProtocol::new(writer);
-    bytes_written += column_chunk
-        .meta_data
-        .as_ref()
-        .unwrap()
-        .write_to_out_protocol(&mut protocol)? as u64;
+    let metadata = serialize_metadata(&column_chunk)?;
+    writer.write_all(&metadata)?;
+    bytes_written += metadata.len() as u64;
 
     Ok((column_chunk, specs, bytes_written))
 }
@@ -88,15 +83,23 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputStreamProtocol::new(writer);
-    bytes_written += column_chunk
+    let metadata = serialize_metadata(&column_chunk)?;
+    writer.write_all(&metadata).await?;
+    bytes_written += metadata.len() as u64;
+
+    Ok((column_chunk, specs, bytes_written))
+}
+
+/// serializes the metadata of the column chunk in memory, so that `write_all` writes it
+fn serialize_metadata(column_chunk: &ColumnChunk) -> Result<Vec<u8>> {
+    let mut buffer = vec![];
+    let mut protocol = TCompactOutputProtocol::new(&mut buffer);
+    column_chunk
         .meta_data
         .as_ref()
         .unwrap()
-        .write_to_out_stream_protocol(&mut protocol)
-        .await? as u64;
-
-    Ok((column_chunk, specs, bytes_written))
+        .write_to_out_protocol(&mut protocol)?;
+    Ok(buffer)
 }
 
 fn build_column_chunk(
diff --git a/src/write/file.rs b/src/write/file.rs
index 2d8243c..27e0879 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -22,10 +22,18 @@ pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
     Ok(PARQUET_MAGIC.len() as u64)
 }
 
-pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
+pub(super) fn serialize_metadata(metadata: &ThriftFileMetaData) -> Result<Vec<u8>> {
+    let mut buffer = vec![];
+    let mut protocol = TCompactOutputProtocol::new(&mut buffer);
+    metadata.write_to_out_protocol(&mut protocol)?;
+    Ok(buffer)
+}
+
+pub(super) fn end_file<W: Write>(writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
     // Write metadata
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_protocol(&mut protocol)? as i32;
+    let metadata = serialize_metadata(metadata)?;
+    writer.write_all(&metadata)?;
+    let metadata_len = metadata.len() as i32;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
diff --git a/src/write/indexes/write.rs b/src/write/indexes/write.rs
index 3bc3c67..9ba74a6 100644
--- a/src/write/indexes/write.rs
+++ b/src/write/indexes/write.rs
@@ -1,9 +1,7 @@
 use std::io::Write;
 
 #[cfg(feature = "async")]
-use futures::AsyncWrite;
-#[cfg(feature = "async")]
-use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
+use futures::{AsyncWrite, AsyncWriteExt};
 
 use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 
@@ -14,10 +12,26 @@ use crate::write::page::PageWriteSpec;
 
 use super::serialize::{serialize_column_index, serialize_offset_index};
 
-pub fn write_column_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
+fn column_index_bytes(pages: &[PageWriteSpec]) -> Result<Vec<u8>> {
     let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(writer);
-    Ok(index.write_to_out_protocol(&mut protocol)? as u64)
+    let mut buffer = vec![];
+    let mut protocol = TCompactOutputProtocol::new(&mut buffer);
+    index.write_to_out_protocol(&mut protocol)?;
+    Ok(buffer)
+}
+
+fn offset_index_bytes(pages: &[PageWriteSpec]) -> Result<Vec<u8>> {
+    let index = serialize_offset_index(pages)?;
+    let mut buffer = vec![];
+    let mut protocol = TCompactOutputProtocol::new(&mut buffer);
+    index.write_to_out_protocol(&mut protocol)?;
+    Ok(buffer)
+}
+
+pub fn write_column_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
+    let buffer = column_index_bytes(pages)?;
+    writer.write_all(&buffer)?;
+    Ok(buffer.len() as u64)
 }
 
 #[cfg(feature = "async")]
@@ -26,15 +40,15 @@ pub async fn write_column_index_async<W: AsyncWrite + Unpin + Send>(
     writer: &mut W,
     pages: &[PageWriteSpec],
 ) -> Result<u64> {
-    let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputStreamProtocol::new(writer);
-    Ok(index.write_to_out_stream_protocol(&mut protocol).await? as u64)
+    let buffer = column_index_bytes(pages)?;
+    writer.write_all(&buffer).await?;
+    Ok(buffer.len() as u64)
 }
 
 pub fn write_offset_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
-    let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(&mut *writer);
-    Ok(index.write_to_out_protocol(&mut protocol)? as u64)
+    let buffer = offset_index_bytes(pages)?;
+    writer.write_all(&buffer)?;
+    Ok(buffer.len() as u64)
 }
 
 #[cfg(feature = "async")]
@@ -43,7 +57,7 @@ pub async fn write_offset_index_async<W: AsyncWrite + Unpin + Send>(
     writer: &mut W,
     pages: &[PageWriteSpec],
 ) -> Result<u64> {
-    let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut *writer);
-    Ok(index.write_to_out_stream_protocol(&mut protocol).await? as u64)
+    let buffer = offset_index_bytes(pages)?;
+    writer.write_all(&buffer).await?;
+    Ok(buffer.len() as u64)
 }
diff --git a/src/write/page.rs b/src/write/page.rs
index 0ba7fa4..ce0b163 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -4,8 +4,6 @@ use std::sync::Arc;
 
 #[cfg(feature = "async")]
 use futures::{AsyncWrite, AsyncWriteExt};
-#[cfg(feature = "async")]
-use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
 
 use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 use parquet_format_safe::{DictionaryPageHeader, Encoding, PageType};
@@ -198,20 +196,29 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
 }
 
 /// writes the page header into `writer`, returning the number of bytes used in the process.
-fn write_page_header<W: Write>(mut writer: &mut W, header: &ParquetPageHeader) -> Result<u64> {
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
-    Ok(header.write_to_out_protocol(&mut protocol)? as u64)
+fn write_page_header<W: Write>(writer: &mut W, header: &ParquetPageHeader) -> Result<u64> {
+    let buffer = serialize_page_header(header)?;
+    writer.write_all(&buffer)?;
+    Ok(buffer.len() as u64)
+}
+
+fn serialize_page_header(header: &ParquetPageHeader) -> Result<Vec<u8>> {
+    let mut buffer = vec![];
+    let mut protocol = TCompactOutputProtocol::new(&mut buffer);
+    header.write_to_out_protocol(&mut protocol)?;
+    Ok(buffer)
 }
 
 #[cfg(feature = "async")]
 #[cfg_attr(docsrs, doc(cfg(feature = "async")))]
 /// writes the page header into `writer`, returning the number of bytes used in the process.
 async fn write_page_header_async<W: AsyncWrite + Unpin + Send>(
-    mut writer: &mut W,
+    writer: &mut W,
     header: &ParquetPageHeader,
 ) -> Result<u64> {
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
-    Ok(header.write_to_out_stream_protocol(&mut protocol).await? as u64)
+    let buffer = serialize_page_header(header)?;
+    writer.write_all(&buffer).await?;
+    Ok(buffer.len() as u64)
 }
 
 #[cfg(test)]
diff --git a/src/write/stream.rs b/src/write/stream.rs
index d9ca626..01e1e3e 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -2,7 +2,7 @@ use std::io::Write;
 
 use futures::{AsyncWrite, AsyncWriteExt};
 
-use parquet_format_safe::{thrift::protocol::TCompactOutputStreamProtocol, FileMetaData, RowGroup};
+use parquet_format_safe::{FileMetaData, RowGroup};
 
 use crate::write::indexes::{write_column_index_async, write_offset_index_async};
 use crate::write::page::PageWriteSpec;
@@ -13,7 +13,8 @@ use crate::{
     FOOTER_SIZE, PARQUET_MAGIC,
 };
 
-use super::{file::column_orders, row_group::write_row_group_async, RowGroupIter, WriteOptions};
+use super::file::{column_orders, serialize_metadata};
+use super::{row_group::write_row_group_async, RowGroupIter, WriteOptions};
 
 async fn start_file<W: AsyncWrite + Unpin>(writer: &mut W) -> Result<u64> {
     writer.write_all(&PARQUET_MAGIC).await?;
@@ -21,12 +22,13 @@ async fn start_file<W: AsyncWrite + Unpin>(writer: &mut W) -> Result<u64> {
 }
 
 async fn end_file<W: AsyncWrite + Unpin + Send>(
-    mut writer: &mut W,
+    writer: &mut W,
     metadata: FileMetaData,
 ) -> Result<u64> {
     // Write file metadata
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_stream_protocol(&mut protocol).await? as i32;
+    let metadata = serialize_metadata(&metadata)?;
+    writer.write_all(&metadata).await?;
+    let metadata_len = metadata.len() as i32;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
-- 
2.43.0


From 2cd1a3b2d8190ada05315b11700ceb9fe9935699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 43/60] fix: a file with an operation that failed midway can't
 be completed, nor a finished one continued

---
 src/write/file.rs   | 18 +++++++++---------
 src/write/mod.rs    | 20 ++++++++++++++++++++
 src/write/stream.rs | 19 ++++++++++---------
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index 27e0879..e10caa5 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -141,7 +141,8 @@ impl<W: Write> FileWriter<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            self.state = State::Incomplete;
             self.offset = start_file(&mut self.writer)?;
             self.state = State::Started;
             Ok(())
@@ -160,9 +161,11 @@ impl<W: Write> FileWriter<W> {
         Error: From<E>,
         E: std::error::Error,
     {
-        if self.offset == 0 {
+        self.state.check_writable()?;
+        if self.state == State::Initialised {
             self.start()?;
         }
+        self.state = State::Incomplete;
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group(
             &mut self.writer,
@@ -174,21 +177,18 @@ impl<W: Write> FileWriter<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
-        if self.offset == 0 {
+        self.state.check_writable()?;
+        if self.state == State::Initialised {
             self.start()?;
         }
-
-        if self.state != State::Started {
-            return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
-            ));
-        }
+        self.state = State::Incomplete;
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 16ba7ca..b7dfdbf 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -21,6 +21,7 @@ pub use file::{write_metadata_sidecar, FileWriter};
 
 pub use row_group::ColumnOffsetsMetadata;
 
+use crate::error::{Error, Result};
 use crate::page::CompressedPage;
 
 pub type RowGroupIter<'a, E> =
@@ -47,9 +48,28 @@ pub enum Version {
 enum State {
     Initialised,
     Started,
+    /// an operation is being written, or failed (or was cancelled) midway, in which case
+    /// what is in the writer is unknown
+    Incomplete,
     Finished,
 }
 
+impl State {
+    /// Errors when the file does not accept row groups or a footer
+    fn check_writable(&self) -> Result<()> {
+        match self {
+            State::Initialised | State::Started => Ok(()),
+            State::Incomplete => Err(Error::InvalidParameter(
+                "A previous operation failed: the file cannot be completed".to_string(),
+            )),
+            State::Finished => Err(Error::InvalidParameter(
+                "The file is already finished: end cannot be called twice, nor write after it"
+                    .to_string(),
+            )),
+        }
+    }
+}
+
 impl From<Version> for i32 {
     fn from(version: Version) -> Self {
         match version {
diff --git a/src/write/stream.rs b/src/write/stream.rs
index 01e1e3e..f6e97a5 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -99,7 +99,8 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     async fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            self.state = State::Incomplete;
             self.offset = start_file(&mut self.writer).await? as u64;
             self.state = State::Started;
             Ok(())
@@ -116,9 +117,11 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         Error: From<E>,
         E: std::error::Error,
     {
-        if self.offset == 0 {
+        self.state.check_writable()?;
+        if self.state == State::Initialised {
             self.start().await?;
         }
+        self.state = State::Incomplete;
 
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group_async(
@@ -132,21 +135,18 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub async fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
-        if self.offset == 0 {
+        self.state.check_writable()?;
+        if self.state == State::Initialised {
             self.start().await?;
         }
-
-        if self.state != State::Started {
-            return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
-            ));
-        }
+        self.state = State::Incomplete;
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
@@ -186,6 +186,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From 6c00a3b7cb6ec4d0a8210f0a6b89d4dd05d2a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 44/60] fix: headers of pages and bloom filters are read across
 interruptions and not from sources that end

---
 src/bloom_filter/read.rs |  4 ++--
 src/read/mod.rs          | 34 ++++++++++++++++++++++++++++++++++
 src/read/page/reader.rs  |  3 ++-
 src/read/page/stream.rs  |  3 ++-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 4107869..d5a0159 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -5,7 +5,7 @@ use parquet_format_safe::{
     BloomFilterHeader, SplitBlockAlgorithm, Uncompressed,
 };
 
-use crate::{error::Error, metadata::ColumnChunkMetaData};
+use crate::{error::Error, metadata::ColumnChunkMetaData, read::WholeReader};
 
 /// The maximum number of bytes of the (small) header; unknown fields of it may declare any length.
 const MAX_HEADER_SIZE: usize = 1024 * 1024;
@@ -30,7 +30,7 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(&mut reader, MAX_HEADER_SIZE);
+    let mut prot = TCompactInputProtocol::new(WholeReader(&mut reader), MAX_HEADER_SIZE);
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
diff --git a/src/read/mod.rs b/src/read/mod.rs
index 677df1e..0895284 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -94,6 +94,40 @@ fn read_region<R: Read>(reader: &mut R, length: u64, buffer: &mut Vec<u8>) -> Re
     check_region(length, buffer)
 }
 
+/// A reader of a structure that the source must contain whole. It retries interrupted reads, which
+/// thrift's deserialization does not, and errors when the source ends.
+pub(crate) struct WholeReader<R>(pub R);
+
+impl<R: Read> Read for WholeReader<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buffer) {
+                Ok(0) if !buffer.is_empty() => {
+                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                }
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                other => return other,
+            }
+        }
+    }
+}
+
+#[cfg(feature = "async")]
+impl<R: futures::AsyncRead + Unpin> futures::AsyncRead for WholeReader<R> {
+    fn poll_read(
+        mut self: std::pin::Pin<&mut Self>,
+        cx: &mut std::task::Context<'_>,
+        buffer: &mut [u8],
+    ) -> std::task::Poll<std::io::Result<usize>> {
+        match std::pin::Pin::new(&mut self.0).poll_read(cx, buffer) {
+            std::task::Poll::Ready(Ok(0)) if !buffer.is_empty() => {
+                std::task::Poll::Ready(Err(std::io::ErrorKind::UnexpectedEof.into()))
+            }
+            other => other,
+        }
+    }
+}
+
 fn check_region(length: u64, buffer: &[u8]) -> Result<()> {
     if buffer.len() as u64 != length {
         return Err(Error::oos(
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 3325517..f18224c 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -14,6 +14,7 @@ use crate::page::{
 };
 use crate::parquet_bridge::Encoding;
 
+use super::super::WholeReader;
 use super::PageIterator;
 
 /// This meta is a small part of [`ColumnChunkMetaData`].
@@ -167,7 +168,7 @@ pub(super) fn read_page_header<R: Read>(
     reader: &mut R,
     max_size: usize,
 ) -> Result<ParquetPageHeader> {
-    let mut prot = TCompactInputProtocol::new(reader, max_size);
+    let mut prot = TCompactInputProtocol::new(WholeReader(reader), max_size);
     let page_header = ParquetPageHeader::read_from_in_protocol(&mut prot)?;
     Ok(page_header)
 }
diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index dbac856..f1ea72a 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -10,6 +10,7 @@ use crate::error::{Error, Result};
 use crate::metadata::{ColumnChunkMetaData, Descriptor};
 use crate::page::{CompressedPage, ParquetPageHeader};
 
+use super::super::WholeReader;
 use super::reader::{finish_page, get_page_header, PageMetaData};
 use super::PageFilter;
 
@@ -138,7 +139,7 @@ async fn read_page_header<R: AsyncRead + Unpin + Send>(
     reader: &mut R,
     max_page_size: usize,
 ) -> Result<ParquetPageHeader> {
-    let mut prot = TCompactInputStreamProtocol::new(reader, max_page_size);
+    let mut prot = TCompactInputStreamProtocol::new(WholeReader(reader), max_page_size);
     let page_header = ParquetPageHeader::stream_from_in_protocol(&mut prot).await?;
     Ok(page_header)
 }
-- 
2.43.0


From c6cf4f0faf2a3f396da9adee804eda6b8ced06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:04 +0000
Subject: [PATCH 45/60] fix: PageReader does not read pages after an error left
 its reader within one

---
 src/read/page/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index f18224c..f084018 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -158,6 +158,10 @@ impl<R: Read> Iterator for PageReader<R> {
                 // no page => we take back the buffer
                 self.scratch = std::mem::take(&mut buffer);
             }
+            if let Some(Err(_)) = maybe_maybe_page {
+                // the reader is not at the start of a page => what follows can't be read as pages
+                self.seen_num_values = self.total_num_values;
+            }
             return maybe_maybe_page;
         }
     }
-- 
2.43.0


From 9418386097793a5e83d994663a8590339e87c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 46/60] fix: the number of rows of a written page does not
 depend on which of its rows are selected

---
 src/page/mod.rs                 | 19 +++++++++++++++++--
 src/read/compression.rs         |  1 +
 src/read/page/indexed_reader.rs | 21 ++++++++++++---------
 src/read/page/reader.rs         |  4 ++++
 src/read/page/stream.rs         |  1 +
 src/write/compression.rs        |  2 ++
 src/write/page.rs               |  8 ++++----
 7 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 05c310e..57d19c6 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -26,6 +26,8 @@ pub struct CompressedDataPage {
 
     // The offset and length in rows
     pub(crate) selected_rows: Option<Vec<Interval>>,
+    // The number of rows of the page, irrespectively of which are selected. `None` if not known
+    pub(crate) num_rows: Option<usize>,
 }
 
 impl CompressedDataPage {
@@ -45,6 +47,7 @@ impl CompressedDataPage {
             uncompressed_page_size,
             descriptor,
             rows.map(|x| vec![Interval::new(0, x)]),
+            rows,
         )
     }
 
@@ -56,6 +59,7 @@ impl CompressedDataPage {
         uncompressed_page_size: usize,
         descriptor: Descriptor,
         selected_rows: Option<Vec<Interval>>,
+        num_rows: Option<usize>,
     ) -> Self {
         Self {
             header,
@@ -64,6 +68,7 @@ impl CompressedDataPage {
             uncompressed_page_size,
             descriptor,
             selected_rows,
+            num_rows,
         }
     }
 
@@ -139,6 +144,8 @@ pub struct DataPage {
     pub(super) buffer: Vec<u8>,
     pub descriptor: Descriptor,
     pub selected_rows: Option<Vec<Interval>>,
+    // The number of rows of the page, irrespectively of which are selected. `None` if not known
+    pub(crate) num_rows: Option<usize>,
 }
 
 impl DataPage {
@@ -153,6 +160,7 @@ impl DataPage {
             buffer,
             descriptor,
             rows.map(|x| vec![Interval::new(0, x)]),
+            rows,
         )
     }
 
@@ -161,12 +169,14 @@ impl DataPage {
         buffer: Vec<u8>,
         descriptor: Descriptor,
         selected_rows: Option<Vec<Interval>>,
+        num_rows: Option<usize>,
     ) -> Self {
         Self {
             header,
             buffer,
             descriptor,
             selected_rows,
+            num_rows,
         }
     }
 
@@ -281,9 +291,14 @@ impl CompressedPage {
         }
     }
 
-    pub(crate) fn selected_rows(&self) -> Option<&[Interval]> {
+    /// The number of rows of the page, when known: either those it was declared with or, failing that,
+    /// the selected rows, when they are its first ones.
+    pub(crate) fn num_rows(&self) -> Option<usize> {
         match self {
-            CompressedPage::Data(page) => page.selected_rows(),
+            CompressedPage::Data(page) => page.num_rows.or_else(|| match page.selected_rows() {
+                Some([interval]) if interval.start == 0 => Some(interval.length),
+                _ => None,
+            }),
             CompressedPage::Dict(_) => None,
         }
     }
diff --git a/src/read/compression.rs b/src/read/compression.rs
index 0bb6f95..ffead29 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -103,6 +103,7 @@ fn create_page(compressed_page: CompressedPage, buffer: Vec<u8>) -> Page {
             buffer,
             page.descriptor,
             page.selected_rows,
+            page.num_rows,
         )),
         CompressedPage::Dict(page) => Page::Dict(DictPage {
             buffer,
diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 24420b7..98a15b9 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -5,7 +5,7 @@ use std::{
 
 use crate::{
     error::Error,
-    indexes::{FilteredPage, Interval},
+    indexes::FilteredPage,
     metadata::{ColumnChunkMetaData, Descriptor},
     page::{CompressedDictPage, CompressedPage, ParquetPageHeader},
     parquet_bridge::Compression,
@@ -85,7 +85,7 @@ fn read_dict_page<R: Read + Seek>(
 ) -> Result<CompressedDictPage, Error> {
     let page_header = read_page(reader, start, length, buffer, data)?;
 
-    let page = finish_page(page_header, data, compression, descriptor, None)?;
+    let page = finish_page(page_header, data, compression, descriptor, None, None)?;
     if let CompressedPage::Dict(page) = page {
         Ok(page)
     } else {
@@ -133,15 +133,17 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         (self.reader, self.buffer, self.data_buffer)
     }
 
-    fn read_page(
-        &mut self,
-        start: u64,
-        length: usize,
-        selected_rows: Vec<Interval>,
-    ) -> Result<CompressedPage, Error> {
+    fn read_page(&mut self, page: FilteredPage) -> Result<CompressedPage, Error> {
         // it will be read - take buffer
         let mut data = std::mem::take(&mut self.data_buffer);
 
+        let FilteredPage {
+            start,
+            length,
+            selected_rows,
+            num_rows,
+        } = page;
+
         let page_header = read_page(&mut self.reader, start, length, &mut self.buffer, &mut data)?;
 
         finish_page(
@@ -150,6 +152,7 @@ impl<R: Read + Seek> IndexedPageReader<R> {
             self.compression,
             &self.descriptor,
             Some(selected_rows),
+            Some(num_rows),
         )
     }
 
@@ -199,7 +202,7 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
         }
         while let Some(page) = self.pages.pop_front() {
             if !page.selected_rows.is_empty() {
-                return Some(self.read_page(page.start, page.length, page.selected_rows));
+                return Some(self.read_page(page));
             }
         }
         None
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index f084018..cde4699 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -225,6 +225,7 @@ pub(super) fn build_page<R: Read>(
         reader.compression,
         &reader.descriptor,
         None,
+        None,
     )
     .map(Some)
 }
@@ -235,6 +236,7 @@ pub(super) fn finish_page(
     compression: Compression,
     descriptor: &Descriptor,
     selected_rows: Option<Vec<Interval>>,
+    num_rows: Option<usize>,
 ) -> Result<CompressedPage> {
     let type_ = page_header.type_.try_into()?;
     let uncompressed_page_size = page_header.uncompressed_page_size.try_into()?;
@@ -270,6 +272,7 @@ pub(super) fn finish_page(
                 uncompressed_page_size,
                 descriptor.clone(),
                 selected_rows,
+                num_rows,
             )))
         }
         PageType::DataPageV2 => {
@@ -284,6 +287,7 @@ pub(super) fn finish_page(
                 uncompressed_page_size,
                 descriptor.clone(),
                 selected_rows,
+                num_rows,
             )))
         }
     }
diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index f1ea72a..abb8d39 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -129,6 +129,7 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
                 compression,
                 &descriptor,
                 None,
+                None,
             )?;
         }
     }
diff --git a/src/write/compression.rs b/src/write/compression.rs
index 2b5d646..2cec339 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -18,6 +18,7 @@ fn compress_data(
         header,
         descriptor,
         selected_rows,
+        num_rows,
     } = page;
     let uncompressed_page_size = buffer.len();
     if compression != CompressionOptions::Uncompressed {
@@ -46,6 +47,7 @@ fn compress_data(
         uncompressed_page_size,
         descriptor,
         selected_rows,
+        num_rows,
     ))
 }
 
diff --git a/src/write/page.rs b/src/write/page.rs
index ce0b163..9f2c286 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -55,7 +55,7 @@ pub fn write_page<W: Write>(
     compressed_page: &CompressedPage,
 ) -> Result<PageWriteSpec> {
     let num_values = compressed_page.num_values();
-    let selected_rows = compressed_page.selected_rows();
+    let num_rows = compressed_page.num_rows();
 
     let header = match &compressed_page {
         CompressedPage::Data(compressed_page) => assemble_data_page_header(compressed_page),
@@ -88,7 +88,7 @@ pub fn write_page<W: Write>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows,
         num_values,
     })
 }
@@ -101,7 +101,7 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
     compressed_page: &CompressedPage,
 ) -> Result<PageWriteSpec> {
     let num_values = compressed_page.num_values();
-    let selected_rows = compressed_page.selected_rows();
+    let num_rows = compressed_page.num_rows();
 
     let header = match &compressed_page {
         CompressedPage::Data(compressed_page) => assemble_data_page_header(compressed_page),
@@ -134,7 +134,7 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows,
         num_values,
     })
 }
-- 
2.43.0


From 5f3dd596fefedbf1cd8af101ff217c89294c6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:40 +0000
Subject: [PATCH 47/60] fix: a row group with fewer or more columns than the
 schema can't be written

---
 src/write/row_group.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..f3a4f85 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -75,6 +75,23 @@ fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64
         .unwrap_or(Ok(0))
 }
 
+/// Pairs the columns of the schema with those of the row group, erroring when there are fewer or more of
+/// the latter.
+fn match_columns<'a, I: Iterator>(
+    descriptors: &'a [ColumnDescriptor],
+    columns: I,
+) -> impl Iterator<Item = Result<(&'a ColumnDescriptor, I::Item)>> {
+    let mut descriptors = descriptors.iter();
+    let mut columns = columns.fuse();
+    std::iter::from_fn(move || match (descriptors.next(), columns.next()) {
+        (Some(descriptor), Some(column)) => Some(Ok((descriptor, column))),
+        (None, None) => None,
+        _ => Some(Err(Error::oos(
+            "A row group must have as many columns as the schema",
+        ))),
+    })
+}
+
 pub fn write_row_group<
     'a,
     W,
@@ -91,11 +108,12 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let column_iter = match_columns(descriptors, columns);
 
     let initial = offset;
     let columns = column_iter
-        .map(|(descriptor, page_iter)| {
+        .map(|item| {
+            let (descriptor, page_iter) = item?;
             let (column, page_specs, size) =
                 write_column_chunk(writer, offset, descriptor, page_iter?)?;
             offset += size;
@@ -158,11 +176,12 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let column_iter = match_columns(descriptors, columns);
 
     let initial = offset;
     let mut columns = vec![];
-    for (descriptor, page_iter) in column_iter {
+    for item in column_iter {
+        let (descriptor, page_iter) = item?;
         let (column, page_specs, size) =
             write_column_chunk_async(writer, offset, descriptor, page_iter?).await?;
         offset += size;
-- 
2.43.0


From b75b5c7099235776e431b4ebd8cb242dda8eed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:00 +0000
Subject: [PATCH 48/60] fix: columns of a row group with different number of
 rows can't be written

---
 src/write/row_group.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index f3a4f85..2f99600 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -56,23 +56,33 @@ impl ColumnOffsetsMetadata {
     }
 }
 
+/// The number of rows of the row group, which must be the same in all its columns
 fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64> {
-    columns
-        .get(0)
-        .map(|(_, specs)| {
-            let mut num_rows = 0;
-            specs
-                .iter()
-                .filter(|x| is_data_page(x))
-                .try_for_each(|spec| {
-                    num_rows += spec.num_rows.ok_or_else(|| {
-                        Error::oos("All data pages must declare the number of rows on it")
-                    })? as i64;
-                    Result::Ok(())
-                })?;
-            Result::Ok(num_rows)
-        })
-        .unwrap_or(Ok(0))
+    let mut num_rows = columns.iter().map(|(_, specs)| column_num_rows(specs));
+    let first = num_rows.next().unwrap_or(Ok(0))?;
+    num_rows.try_for_each(|num_rows| {
+        if num_rows? != first {
+            return Err(Error::oos(
+                "All columns of a row group must have the same number of rows",
+            ));
+        }
+        Ok(())
+    })?;
+    Ok(first)
+}
+
+fn column_num_rows(specs: &[PageWriteSpec]) -> Result<i64> {
+    let mut num_rows = 0;
+    specs
+        .iter()
+        .filter(|x| is_data_page(x))
+        .try_for_each(|spec| {
+            num_rows += spec.num_rows.ok_or_else(|| {
+                Error::oos("All data pages must declare the number of rows on it")
+            })? as i64;
+            Result::Ok(())
+        })?;
+    Ok(num_rows)
 }
 
 /// Pairs the columns of the schema with those of the row group, erroring when there are fewer or more of
-- 
2.43.0


From 4cefdb5ced8cd8ad6a99124e8527cfc0575a7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 49/60] fix: pages of another physical type or levels can't be
 written to a column

---
 src/write/column_chunk.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 39dfab6..4521cbf 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -41,6 +41,7 @@ where
 
     let mut specs = vec![];
     while let Some(compressed_page) = compressed_pages.next()? {
+        check_page(compressed_page, descriptor)?;
         let spec = write_page(writer, offset, compressed_page)?;
         offset += spec.bytes_written;
         specs.push(spec);
@@ -74,6 +75,7 @@ where
     // write every page
     let mut specs = vec![];
     while let Some(compressed_page) = compressed_pages.next()? {
+        check_page(compressed_page, descriptor)?;
         let spec = write_page_async(writer, offset, compressed_page).await?;
         offset += spec.bytes_written;
         specs.push(spec);
@@ -90,6 +92,24 @@ where
     Ok((column_chunk, specs, bytes_written))
 }
 
+/// Errors when the page is not of a column like `descriptor`
+fn check_page(page: &CompressedPage, descriptor: &ColumnDescriptor) -> Result<()> {
+    let page = match page {
+        CompressedPage::Data(page) => page,
+        CompressedPage::Dict(_) => return Ok(()),
+    };
+    let (actual, expected) = (&page.descriptor, &descriptor.descriptor);
+    if actual.primitive_type.physical_type != expected.primitive_type.physical_type
+        || actual.max_def_level != expected.max_def_level
+        || actual.max_rep_level != expected.max_rep_level
+    {
+        return Err(Error::oos(
+            "The physical type and levels of a page must be those of the column it is written to",
+        ));
+    }
+    Ok(())
+}
+
 /// serializes the metadata of the column chunk in memory, so that `write_all` writes it
 fn serialize_metadata(column_chunk: &ColumnChunk) -> Result<Vec<u8>> {
     let mut buffer = vec![];
-- 
2.43.0


From 627baff0b4013e58c64271ae8ba1dde6d845182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:20 +0000
Subject: [PATCH 50/60] fix: pages whose declared number of rows contradicts
 their header or values can't be written

---
 src/write/column_chunk.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 4521cbf..b6305a5 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -14,7 +14,7 @@ use crate::{
     encoding::Encoding,
     error::{Error, Result},
     metadata::ColumnDescriptor,
-    page::{CompressedPage, PageType},
+    page::{CompressedPage, DataPageHeader, PageType},
 };
 
 #[cfg(feature = "async")]
@@ -94,10 +94,29 @@ where
 
 /// Errors when the page is not of a column like `descriptor`
 fn check_page(page: &CompressedPage, descriptor: &ColumnDescriptor) -> Result<()> {
+    let num_rows = page.num_rows();
     let page = match page {
         CompressedPage::Data(page) => page,
         CompressedPage::Dict(_) => return Ok(()),
     };
+    if let Some(num_rows) = num_rows {
+        if descriptor.descriptor.max_rep_level == 0 && num_rows != page.num_values() {
+            return Err(Error::oos(
+                "A page of a column that is not repeated must have as many rows as values",
+            ));
+        }
+        if num_rows > page.num_values() {
+            return Err(Error::oos("A page can't have more rows than values"));
+        }
+        match page.header() {
+            DataPageHeader::V2(header) if Ok(num_rows) != header.num_rows.try_into() => {
+                return Err(Error::oos(
+                    "The number of rows of a page must be the one in its header",
+                ));
+            }
+            _ => (),
+        }
+    }
     let (actual, expected) = (&page.descriptor, &descriptor.descriptor);
     if actual.primitive_type.physical_type != expected.primitive_type.physical_type
         || actual.max_def_level != expected.max_def_level
-- 
2.43.0


From a8a7384e140122ffb4b259c545a68152d95ccc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 51/60] fix: levels of V1 pages in the deprecated BIT_PACKED
 encoding are not read as RLE

---
 src/page/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 57d19c6..923923c 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -434,11 +434,19 @@ pub fn split_buffer_v2(
 /// Splits the page buffer into 3 slices corresponding to (encoded rep levels, encoded def levels, encoded values).
 pub fn split_buffer(page: &DataPage) -> Result<(&[u8], &[u8], &[u8])> {
     match page.header() {
-        DataPageHeader::V1(_) => split_buffer_v1(
-            page.buffer(),
-            page.descriptor.max_rep_level > 0,
-            page.descriptor.max_def_level > 0,
-        ),
+        DataPageHeader::V1(header) => {
+            let has_rep = page.descriptor.max_rep_level > 0;
+            let has_def = page.descriptor.max_def_level > 0;
+            // the deprecated `BIT_PACKED` levels have neither the length nor the layout of `RLE`'s
+            if (has_rep && header.repetition_level_encoding != Encoding::Rle.into())
+                || (has_def && header.definition_level_encoding != Encoding::Rle.into())
+            {
+                return Err(Error::FeatureNotSupported(
+                    "Levels of V1 pages encoded in other than RLE".to_string(),
+                ));
+            }
+            split_buffer_v1(page.buffer(), has_rep, has_def)
+        }
         DataPageHeader::V2(header) => {
             let def_level_buffer_length: usize = header.definition_levels_byte_length.try_into()?;
             let rep_level_buffer_length: usize = header.repetition_levels_byte_length.try_into()?;
-- 
2.43.0


From 5dd62c01478ec28e4202c2bc02251a41a58fd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 52/60] fix: pages with statistics of more than 1 MiB are read
 through the page indexes

---
 src/read/page/indexed_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 98a15b9..cbf477d 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -57,9 +57,9 @@ fn read_page<R: Read + Seek>(
     // read [header][data] to buffer
     read_region(reader, length as u64, buffer)?;
 
-    // deserialize [header]
+    // deserialize [header]; it can't be larger than what was read
     let mut reader = Cursor::new(buffer);
-    let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    let page_header = read_page_header(&mut reader, length.max(1024 * 1024))?;
     // validates the header
     get_page_header(&page_header)?;
     let data_size: usize = page_header.compressed_page_size.try_into()?;
-- 
2.43.0


From 9633054bfae80aee0be7fe1be9f80c4e0c981a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:21 +0000
Subject: [PATCH 53/60] fix: int96 timestamps beyond the range of 64 bit
 nanoseconds overflowed

---
 src/types.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 84ec296..43e5a17 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -95,12 +95,13 @@ impl NativeType for [u32; 3] {
 
     #[inline]
     fn ord(&self, other: &Self) -> std::cmp::Ordering {
-        int96_to_i64_ns(*self).ord(&int96_to_i64_ns(*other))
+        int96_to_ns(*self).cmp(&int96_to_ns(*other))
     }
 }
 
+/// The nanoseconds since the epoch, that may not fit in 64 bits.
 #[inline]
-pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
+fn int96_to_ns(value: [u32; 3]) -> i128 {
     const JULIAN_DAY_OF_EPOCH: i64 = 2_440_588;
     const SECONDS_PER_DAY: i64 = 86_400;
     const NANOS_PER_SECOND: i64 = 1_000_000_000;
@@ -109,7 +110,13 @@ pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
     let nanoseconds = ((value[1] as i64) << 32) + value[0] as i64;
     let seconds = (day - JULIAN_DAY_OF_EPOCH) * SECONDS_PER_DAY;
 
-    seconds * NANOS_PER_SECOND + nanoseconds
+    seconds as i128 * NANOS_PER_SECOND as i128 + nanoseconds as i128
+}
+
+/// The nanoseconds since the epoch, wrapping around when they do not fit in 64 bits.
+#[inline]
+pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
+    int96_to_ns(value) as i64
 }
 
 /// Returns the ordering of two binary values.
-- 
2.43.0


From 3f5871613825b0b35a485d551c244cdd84aa9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:21 +0000
Subject: [PATCH 54/60] fix: the compressed size of a row group overflowed on
 corrupted sizes of its columns

---
 src/metadata/row_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/row_metadata.rs b/src/metadata/row_metadata.rs
index 707820d..687efe5 100644
--- a/src/metadata/row_metadata.rs
+++ b/src/metadata/row_metadata.rs
@@ -51,7 +51,7 @@ impl RowGroupMetaData {
         self.columns
             .iter()
             .map(|c| c.compressed_size() as usize)
-            .sum::<usize>()
+            .fold(0, usize::saturating_add)
     }
 
     /// Method to convert from Thrift.
-- 
2.43.0


From 83bea9ca576140733e5cc1d1bb997dbc51120e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:21 +0000
Subject: [PATCH 55/60] fix: dictionaries declared sorted were written without
 that declaration

---
 src/write/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 9f2c286..d6f5191 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -189,7 +189,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
         dictionary_page_header: Some(DictionaryPageHeader {
             num_values,
             encoding: Encoding::PLAIN,
-            is_sorted: None,
+            is_sorted: page.is_sorted.then(|| true),
         }),
         data_page_header_v2: None,
     })
-- 
2.43.0


From 7891f04f776fd42ef589d05b291c5cdd7fecba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:34 +0000
Subject: [PATCH 56/60] fix: deserialize column chunks from formats that
 distinguish bytes from sequences

---
 src/metadata/column_chunk_metadata.rs | 39 +++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index 7101097..e6ac608 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -13,7 +13,7 @@ mod serde_types {
     pub use parquet_format_safe::thrift::protocol::{
         TCompactInputProtocol, TCompactOutputProtocol,
     };
-    pub use serde::de::Error as DeserializeError;
+    pub use serde::de::{Error as DeserializeError, SeqAccess, Visitor};
     pub use serde::ser::Error as SerializeError;
     pub use serde::{Deserialize, Deserializer, Serialize, Serializer};
     pub use std::io::Cursor;
@@ -55,12 +55,47 @@ where
     serializer.serialize_bytes(&buf)
 }
 
+/// Visitor of bytes, that some formats represent as a sequence of numbers
+#[cfg(feature = "serde_types")]
+struct BytesVisitor;
+
+#[cfg(feature = "serde_types")]
+impl<'de> Visitor<'de> for BytesVisitor {
+    type Value = Vec<u8>;
+
+    fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+        formatter.write_str("the bytes of a thrift column chunk")
+    }
+
+    fn visit_bytes<E: DeserializeError>(self, v: &[u8]) -> std::result::Result<Self::Value, E> {
+        Ok(v.to_vec())
+    }
+
+    fn visit_byte_buf<E: DeserializeError>(
+        self,
+        v: Vec<u8>,
+    ) -> std::result::Result<Self::Value, E> {
+        Ok(v)
+    }
+
+    fn visit_seq<A: SeqAccess<'de>>(
+        self,
+        mut seq: A,
+    ) -> std::result::Result<Self::Value, A::Error> {
+        let mut buf = vec![];
+        while let Some(byte) = seq.next_element()? {
+            buf.push(byte);
+        }
+        Ok(buf)
+    }
+}
+
 #[cfg(feature = "serde_types")]
 fn deserialize_column_chunk<'de, D>(deserializer: D) -> std::result::Result<ColumnChunk, D::Error>
 where
     D: Deserializer<'de>,
 {
-    let buf = Vec::<u8>::deserialize(deserializer)?;
+    let buf = deserializer.deserialize_byte_buf(BytesVisitor)?;
     let mut cursor = Cursor::new(&buf[..]);
     let mut protocol = TCompactInputProtocol::new(&mut cursor, usize::MAX);
     ColumnChunk::read_from_in_protocol(&mut protocol).map_err(D::Error::custom)
-- 
2.43.0


From c0f155d20d2909250338b73ef93ca5a0e481deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:49 +0000
Subject: [PATCH 57/60] fix: bound and validate deserialized column chunks

---
 src/metadata/column_chunk_metadata.rs | 38 ++++++++++++++++-----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e6ac608..c61127a 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -97,8 +97,28 @@ where
 {
     let buf = deserializer.deserialize_byte_buf(BytesVisitor)?;
     let mut cursor = Cursor::new(&buf[..]);
-    let mut protocol = TCompactInputProtocol::new(&mut cursor, usize::MAX);
-    ColumnChunk::read_from_in_protocol(&mut protocol).map_err(D::Error::custom)
+    let mut protocol = TCompactInputProtocol::new(&mut cursor, buf.len() * 8 + 1024);
+    let column_chunk =
+        ColumnChunk::read_from_in_protocol(&mut protocol).map_err(D::Error::custom)?;
+    validate(&column_chunk).map_err(D::Error::custom)?;
+    Ok(column_chunk)
+}
+
+/// Validates what the methods of [`ColumnChunkMetaData`] rely on.
+fn validate(column_chunk: &ColumnChunk) -> Result<()> {
+    if let Some(meta) = &column_chunk.meta_data {
+        let _: u64 = meta.total_compressed_size.try_into()?;
+
+        if let Some(offset) = meta.dictionary_page_offset {
+            let _: u64 = offset.try_into()?;
+        }
+        let _: u64 = meta.data_page_offset.try_into()?;
+
+        let _: Compression = meta.codec.try_into()?;
+    } else {
+        return Err(Error::oos("Column chunk requires metdata"));
+    }
+    Ok(())
 }
 
 // Represents common operations for a column chunk.
@@ -216,19 +236,7 @@ impl ColumnChunkMetaData {
         column_descr: ColumnDescriptor,
         column_chunk: ColumnChunk,
     ) -> Result<Self> {
-        // validate metadata
-        if let Some(meta) = &column_chunk.meta_data {
-            let _: u64 = meta.total_compressed_size.try_into()?;
-
-            if let Some(offset) = meta.dictionary_page_offset {
-                let _: u64 = offset.try_into()?;
-            }
-            let _: u64 = meta.data_page_offset.try_into()?;
-
-            let _: Compression = meta.codec.try_into()?;
-        } else {
-            return Err(Error::oos("Column chunk requires metdata"));
-        }
+        validate(&column_chunk)?;
 
         Ok(Self {
             column_chunk,
-- 
2.43.0


From 08d9f5f24e67dabc4c3fe429ed62ed0b6277b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:44 +0000
Subject: [PATCH 58/60] fix: mark recompressed v2 pages as compressed

---
 src/write/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index 2cec339..2f9e55b 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -15,14 +15,14 @@ fn compress_data(
 ) -> Result<CompressedDataPage> {
     let DataPage {
         mut buffer,
-        header,
+        mut header,
         descriptor,
         selected_rows,
         num_rows,
     } = page;
     let uncompressed_page_size = buffer.len();
     if compression != CompressionOptions::Uncompressed {
-        match &header {
+        match &mut header {
             DataPageHeader::V1(_) => {
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
@@ -35,6 +35,10 @@ fn compress_data(
                 compressed_buffer.extend_from_slice(rep_levels);
                 compressed_buffer.extend_from_slice(def_levels);
                 compression::compress(compression, values, &mut compressed_buffer)?;
+                // the values are now compressed, regardless of how they were stored before
+                if header.is_compressed == Some(false) {
+                    header.is_compressed = Some(true);
+                }
             }
         };
     } else {
-- 
2.43.0


From 5dc982676eae53205b9e8909a0398d61cdfc0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:19 +0000
Subject: [PATCH 59/60] fix: refuse to write pages whose header declares
 negative counts

---
 src/write/column_chunk.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index b6305a5..c4940ba 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -99,6 +99,17 @@ fn check_page(page: &CompressedPage, descriptor: &ColumnDescriptor) -> Result<()
         CompressedPage::Data(page) => page,
         CompressedPage::Dict(_) => return Ok(()),
     };
+    let has_negative = match page.header() {
+        DataPageHeader::V1(header) => header.num_values < 0,
+        DataPageHeader::V2(header) => {
+            header.num_values < 0 || header.num_nulls < 0 || header.num_rows < 0
+        }
+    };
+    if has_negative {
+        return Err(Error::oos(
+            "The numbers of values, nulls and rows of a page must be zero or positive",
+        ));
+    }
     if let Some(num_rows) = num_rows {
         if descriptor.descriptor.max_rep_level == 0 && num_rows != page.num_values() {
             return Err(Error::oos(
-- 
2.43.0


From 8de890771cceb23fb2735202ce3dff0f0a9ade68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:19 +0000
Subject: [PATCH 60/60] fix: do not overflow when adding up the null counts of
 pages

---
 src/write/statistics.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 0f47c34..da506bf 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -120,7 +120,7 @@ fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) ->
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, order);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, order);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_single(acc.null_count, new.null_count, i64::saturating_add);
         acc.distinct_count = None;
         acc
     })
@@ -134,7 +134,7 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, order);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, order);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_single(acc.null_count, new.null_count, i64::saturating_add);
         acc.distinct_count = None;
         acc
     })
@@ -183,7 +183,7 @@ fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
             new.max_value,
             |x, y| if x & !(y) { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_single(acc.null_count, new.null_count, i64::saturating_add);
         acc.distinct_count = None;
         acc
     })
@@ -218,7 +218,7 @@ fn reduce_primitive<
             new.max_value,
             |x, y| if is_greater(&x, &y) { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_single(acc.null_count, new.null_count, i64::saturating_add);
         acc.distinct_count = None;
         acc
     })
@@ -241,7 +241,7 @@ fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
             new.max_value,
             |x, y| if key(&x) > key(&y) { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_single(acc.null_count, new.null_count, i64::saturating_add);
         acc.distinct_count = None;
         acc
     })
-- 
2.43.0

