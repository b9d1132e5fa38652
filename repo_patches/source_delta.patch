From 41c9ce9120b6c14bec1fa7f71463d7c8838501c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 01/49] verif hook: make table and traits reachable under
 cfg(verif_hooks)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..74605e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,9 +3,15 @@
 extern crate core;
 
 pub mod db;
+#[cfg(not(verif_hooks))]
 mod table;
+#[cfg(verif_hooks)]
+pub mod table;
 pub mod util;
+#[cfg(not(verif_hooks))]
 mod traits;
+#[cfg(verif_hooks)]
+pub mod traits;
 
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
-- 
2.43.0


From 3e21227c0690fd41dc4859d01e59c5917fdc7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 02/49] fix: fixed32/fixed64 coding at an unaligned offset

ptr::read/ptr::write need an aligned pointer; after any varint or odd-sized buf the
offset is not, which is undefined behaviour and aborts in builds with debug assertions.
---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..4fe7ee0 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -179,7 +179,7 @@ macro_rules! encode_fixed {
                 // 移动指针
                 let end = mut_ptr.add(offset);
                 // 写入数据
-                ptr::write(end as *mut $type, swap_bytes!(value));
+                ptr::write_unaligned(end as *mut $type, swap_bytes!(value));
             }
         }
     };
@@ -317,7 +317,7 @@ macro_rules! decode_fixed {
         unsafe fn $name(data: &EncodeData, offset: usize) -> $type {
             // offset + 读取字节 >= data.len() 时会溢出
             let ptr = get_ptr!(data);
-            swap_bytes!(unsafe {ptr::read(ptr.add(offset) as *mut $type)})
+            swap_bytes!(unsafe {ptr::read_unaligned(ptr.add(offset) as *const $type)})
         }
     }
 }
-- 
2.43.0


From b45f780e686608b167a8f5cbd1459c10ab5ba3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 03/49] fix: uncheck_read_buf allocated with a layout the Slice
 does not free with

The memory was allocated with alignment 4 but is owned by a Vec<u8>, which frees it with
alignment 1; a zero length asked the allocator for zero bytes. Both are undefined behaviour.
---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 4fe7ee0..ecadbc9 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::{ptr, slice};
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 将数据拷贝到slice自己的内存上
+    Slice::from_buf(slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From 52c867036dacfb622f57500bc3b10e5f9415972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 04/49] fix: checked varint decoding accepts a truncated varint

get_varint32/64 and get_length_prefixed_slice returned Ok with a partial value when the
input ended (or the maximum length was reached) before the terminating byte.
---
 src/util/coding.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index ecadbc9..29311c3 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -378,6 +378,14 @@ macro_rules! decode_varint {
 decode_varint!(uncheck_decode_varint32, u32, 28);
 decode_varint!(uncheck_decode_varint64, u64, 63);
 
+/// offset处的字节是否标记后面还有varint字节
+///
+/// # Safety
+/// * offset < data.len(), 否则溢出
+unsafe fn uncheck_has_more(data: &EncodeData, offset: usize) -> bool {
+    ptr::read(get_ptr!(data).add(offset)) & 128 != 0
+}
+
 /// 写入buf
 ///
 /// # Safety
@@ -952,6 +960,13 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            // 最后一个字节仍有后续标志, 说明varint不完整
+            if unsafe { uncheck_has_more(&self.data, res.1 - 1) } {
+                return Err(LevelError::invalid_argument(
+                    Slice::from("truncated varint"),
+                    Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))
+                ));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
@@ -1068,7 +1083,7 @@ impl<'a> Decoder<'a> {
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
         check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
+        let size = self.get_varint32()? as usize;
         check_length!(self.offset, size, self.limit, read);
         unsafe { Ok(self.uncheck_get_buf(size)) }
     }
-- 
2.43.0


From 6eac847a0356f95c86f30be335acb30176677bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 05/49] fix: Decoder::skip/get_buf length check overflows

offset + len wraps (a panic in debug builds, an out-of-bounds read in release builds) for a
very large length.
---
 src/util/coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 29311c3..6f05751 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -135,7 +135,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $read_len > $limit || $offset > $limit - $read_len {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From 531427ef83a3c7ce0f9b268cd33cd999b13067e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 06/49] fix: Slice::starts_with panics when the other slice is
 longer

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..c1b2868 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From 9de97ce4c87e35df9f7014be208f6810839d0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 07/49] fix: IndexMut<Range> of Slice ignores the start of the
 range

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index c1b2868..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -239,7 +239,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From 9e3902957467efa1c0f7e46736a7c87bc1d0bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 08/49] fix: find_shortest_separator panics on prefixes and
 truncates below start

---
 src/util/comparator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..ca84886 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,10 +78,11 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec;
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From 9eda481d3c8a8e867e8df7960d400da338e67923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 09/49] fix: CRC::extend restarts at the first byte when the
 data is not 4-byte aligned

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..922f37a 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
-- 
2.43.0


From 493af8c68f8b44df8e53165676f2d35424ea3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 10/49] fix: CRC::unmask overflows for masked values below the
 delta

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index 922f37a..ed2d87d 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From 4c5d583087a943ac53584e9af02d33eaf3928b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 11/49] fix: CRC::extend rotates the four lanes wrongly after a
 4-byte step

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index ed2d87d..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From c06d11cba1c4d55755eca174e8dbf68443c73e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 12/49] fix: FilterBlockBuilder::start_block never terminates
 once a filter range is complete

---
 src/table/filter_block.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..b6eda9b 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -157,11 +157,10 @@ impl FilterBlock for FilterBlockBuilder {
         // 计算出需要创建的filter的总数目. filters_number ==> filter_index
         let filters_number = block_offset / (FILTER_BASE as u64);
 
-        let len = self.filter_offsets.len() as u64;
-        assert!(filters_number >= len);
+        assert!(filters_number >= self.filter_offsets.len() as u64);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From ccb3406f9c5e4de33846b9404b2ac0e932b77bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 13/49] fix: FilterBlockBuilder::add_key panics on keys that
 are not UTF-8

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index b6eda9b..1d6c718 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -172,7 +172,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.write(key.as_ref()).expect("add_key error!");
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From ed6febcfa627fc93ea05d882912e1a29fc6a038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 14/49] fix: FilterBlockBuilder::finish overwrites filter data
 with the offset array

---
 src/table/filter_block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 1d6c718..b7cb93f 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -183,10 +183,9 @@ impl FilterBlock for FilterBlockBuilder {
         // Append array of per-filter offsets
         let array_offset = self.result.len() as u32;
 
-        // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
-        // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        // Encoder::with_vec 从 vec 头部开始写入，因此先写入临时 vec，再追加到 result 尾部，避免覆盖 filter 数据
+        let mut dst: Vec<u8> = Vec::new();
+        let mut encoder = Encoder::with_vec(&mut dst);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -194,6 +193,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.extend_from_slice(&dst);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From be23a5fe3574ed831b64592e4d9fe4b8de8cbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 15/49] fix: log record checksum written as varint32 instead of
 fixed32

---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..8c21058 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -75,7 +75,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From bf4c7dad401b3b484e890acf9c381069bacf495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 16/49] fix: LogWriter does not start a new block when a record
 spans blocks

---
 src/db/log_writer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 8c21058..c4f8bcd 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,11 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 309d6f99e35ff6671fe77b1d33bb1e46ed5af43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 17/49] fix: LogWriter loses data when the file accepts a short
 write

---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index c4f8bcd..2f0e51a 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -46,7 +46,7 @@ impl LogWriter {
             let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -78,10 +78,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From a2824b5c0c3d27f5488b740dac7e10db5bc9d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 18/49] fix: LogReader takes a short read for the end of the
 block

---
 src/db/log_reader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..7821441 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -87,9 +87,15 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
-        if self.buf_len < K_BLOCK_SIZE {
-            self.eof = true;
+        self.buf_len = 0;
+        // read may deliver less than a block before the end of the file
+        while self.buf_len < K_BLOCK_SIZE {
+            let n = self.file_reader.read(&mut self.buf[self.buf_len..])?;
+            if n == 0 {
+                self.eof = true;
+                break;
+            }
+            self.buf_len += n;
         }
         Ok(())
     }
-- 
2.43.0


From 2433abb7015310d32e597540a05b037ab95c991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 19/49] fix: LogReader does not see the end of the log or the
 trailer of a block

---
 src/db/log_reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 7821441..9dd4a8b 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -2,7 +2,7 @@ use std::fs::File;
 use std::io::{Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -46,8 +46,14 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
+                // the end of the file, or a block trailer too small for a header
+                if self.eof {
+                    self.buf_read_idx = self.buf_len;
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
-- 
2.43.0


From 5428fab648dd4bdba3f54a27b939190137b12211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 20/49] fix: LogReader takes the rest of the block for a FIRST
 or MIDDLE fragment

---
 src/db/log_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 9dd4a8b..6677025 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -69,11 +69,16 @@ impl LogReader {
                 }
                 K_FIRST_TYPE => {
                     tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
                     tmp.as_mut().unwrap().write(partial_data)?;
                 }
                 K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
+                    tmp.as_mut().unwrap().write(partial_data)?;
                 }
                 K_LAST_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
-- 
2.43.0


From 84b70188d2129a4c343b9e12f259b206a483f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 21/49] fix: LogReader trusts the length of a torn or corrupt
 record

---
 src/db/log_reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 6677025..5bbc96d 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -58,8 +58,20 @@ impl LogReader {
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
             self.buf_read_idx += 7;
+            if data_len > self.buf_len - self.buf_read_idx {
+                self.buf_read_idx = self.buf_len;
+                if self.eof {
+                    // the writer died in the middle of this record
+                    return Ok(None);
+                }
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(e) = self.check_crc(data_len) {
+                // the length itself may be corrupt: drop the rest of the block
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
             match record_type {
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
-- 
2.43.0


From 673c862920e27c8a1afab70e55391a6537fe48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 22/49] fix: LogReader panics on a fragment without start and
 does not pass bad records

---
 src/db/log_reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 5bbc96d..b1ee32a 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -73,6 +73,15 @@ impl LogReader {
                 return Err(e);
             }
             match record_type {
+                K_FULL_TYPE | K_FIRST_TYPE if tmp.is_some() => {
+                    // report the unfinished record, then go on with this one
+                    self.buf_read_idx -= K_HEADER_SIZE;
+                    return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
+                }
+                K_MIDDLE_TYPE | K_LAST_TYPE if tmp.is_none() => {
+                    self.buf_read_idx += data_len;
+                    return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+                }
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
                     let data = &self.buf[self.buf_read_idx..end_idx];
@@ -101,6 +110,7 @@ impl LogReader {
                     return Ok(Some(Slice::from_vec(data)));
                 }
                 _ => {
+                    self.buf_read_idx += data_len;
                     return Err(Status::wrapper(LevelError::KCorruption,
                                                format!("bad record_type: {}", record_type).into()));
                 }
-- 
2.43.0


From 9ed55f012de794a835a3b3785591b4601f18a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 23/49] fix: Arena::allocate(0) panics on a fresh arena

---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..ff2718f 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if bytes <= self.alloc_bytes_remaining && self.alloc_ptr.is_some() {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From 04d20c5acadfb3a5c8e83ad0efd6b79d61b0cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 24/49] fix: Slice::copy_with_arena lets the Slice free memory
 of the arena

---
 src/util/arena.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index ff2718f..44b9917 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -116,12 +116,10 @@ impl Drop for Arena {
 
 impl ArenaAllocLike for Slice {
     fn copy_with_arena(&self, arena: ArenaRef) -> Self {
-        unsafe {
-            let mut lock_guard = arena.lock().unwrap();
-            let dst = lock_guard.allocate(self.len());
-            let src = &**self;
-            dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
-        }
+        let mut lock_guard = arena.lock().unwrap();
+        let dst = lock_guard.allocate(self.len());
+        dst.copy_from_slice(self);
+        // Slice owns its memory and frees it on drop, so it must not take over arena memory
+        Slice::from_buf(dst)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 5209003c4c5f78b81aa8a5ef6509459205ba433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 25/49] fix: UnsafeSlice::new_with_arena returns an empty slice

---
 src/util/unsafe_slice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..c65ab4c 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,6 +1,5 @@
 use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -27,8 +26,9 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        // 不能使用 Write::write, 它会移动 buf 的起始位置
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From 1691238482ff773b5a0405cbbef9684c95dcf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 26/49] fix: UnsafeSlice::to_slice returns uninitialized memory

---
 src/util/unsafe_slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c65ab4c..341cbca 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::mem::ManuallyDrop;
 
@@ -64,10 +63,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From bb2c9413be5bbdf1057fc79f4e41ca69e55a3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 27/49] fix: UnsafeSlice::sub_slice refuses the tail and its
 bound check overflows

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 341cbca..50f272d 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -53,7 +53,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start <= self.len && len <= self.len - start, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From cd3e8c40f01f7e0ed3d89e7439c4968ca5da9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 28/49] fix: SkipList accesses node pointers at unaligned
 addresses

---
 src/db/skip_list.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..0d78248 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -342,13 +342,14 @@ impl Node {
     #[must_use]
     unsafe fn get_node(&self, level: usize) -> RawNode {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).read()
+        // arena 分配的内存不保证对齐
+        self.next_elems.offset(level as isize).read_unaligned()
     }
 
     #[inline]
     unsafe fn set_node(&mut self, level: usize, node: RawNode) {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).write(node);
+        self.next_elems.offset(level as isize).write_unaligned(node);
     }
 
     /// 找到最后一个数据元素
-- 
2.43.0


From e0e1281cf576dff669e6d65360e8a78623fb60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 29/49] fix: iterating an empty SkipList follows uninitialized
 pointers

---
 src/db/skip_list.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 0d78248..7d923b5 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,11 +52,12 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let tail = Node::create_tail();
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head: Node::create_head(arena.clone(), tail),
+            tail,
             cmp: comparator,
             arena,
         }
@@ -295,12 +296,16 @@ impl Node {
     }
 
     #[inline]
-    fn create_head(arena: ArenaRef) -> RawNode {
-        let node = Box::new(Self {
+    fn create_head(arena: ArenaRef, tail: RawNode) -> RawNode {
+        let mut node = Box::new(Self {
             key: None,
             next_elems: allocate_next_elems(arena),
             level: MAX_LEVEL,
         });
+        // 空链表的头指针每层都指向尾指针
+        for l in 0..MAX_LEVEL {
+            unsafe { node.set_node(l, tail) };
+        }
         Box::into_raw(node)
     }
 
-- 
2.43.0


From b4326e699fe96f455cc3fb7c89bca616406707a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 30/49] fix: SkipList iterator valid() is inverted

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 7d923b5..38a9c7c 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -445,7 +445,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From fc262cec059f902c373d4c51471249ad9bbdc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 31/49] fix: SkipList iterator seek_to_last stops before the
 last element

---
 src/db/skip_list.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 38a9c7c..263fb47 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -363,21 +363,16 @@ impl Node {
             return None;
         }
         let mut pre = self;
-        let mut cur = &*self.next_top_node();
+        // 只有最底层包含所有元素
+        let mut cur = &*self.get_node(0);
         loop {
             if cur.is_tail() {
                 return Some(pre as *const Node as *mut Node);
             }
             pre = cur;
-            cur = &*cur.next_top_node();
+            cur = &*cur.get_node(0);
         }
     }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
-    }
 }
 
 fn rand_level() -> usize {
@@ -459,7 +454,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From 42efc810134792df318664b4885c74ea27a6701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 32/49] fix: MemTable::add deadlocks on the arena and
 undersizes the entry

---
 src/db/mem_table.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..66c45bc 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,13 +70,12 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        let mut buf = vec![0; encoded_len];
+        let mut encoder = Encoder::with_buf(&mut buf);
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
-- 
2.43.0


From 73787405cef4a1f7e6e26453aee4691e373dcd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 33/49] fix: MemTable::add does not write the length of the
 value

---
 src/db/mem_table.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 66c45bc..4f39d50 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -84,6 +84,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From 1dbfb9ba8fde6048ebd2c0b524aedb11021aca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 34/49] fix: LookupKey::new writes past an empty buffer

---
 src/db/db_format.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..a961882 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -258,11 +258,10 @@ impl LookupKey {
         let user_key_size = user_key.size();
         let need = user_key_size + 13; // A conservative estimate
         let mut data = Vec::with_capacity(need);
-        let buf = data.as_mut_slice();
-        let mut encoder = Encoder::with_buf(buf);
+        let mut encoder = Encoder::with_vec(&mut data);
         // write key size
         let klength = varint_length((user_key_size + 8) as u64);
-        // 需要保证写入的数据不会超过buf.len(), 否则会溢出
+        // vec 类型会自动扩容
         unsafe {
             encoder.uncheck_put_varint32(klength as u32);
             // write key slice
-- 
2.43.0


From a4307b1428e8047479ad57ef96cde504d03ee6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 35/49] fix: LookupKey stores the length of its length prefix
 instead of the key length

---
 src/db/db_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index a961882..4540254 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -263,7 +263,7 @@ impl LookupKey {
         let klength = varint_length((user_key_size + 8) as u64);
         // vec 类型会自动扩容
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            encoder.uncheck_put_varint32((user_key_size + 8) as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From a371a8cdcb2b2a3d0542286c34297766ef9ab2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 36/49] fix: VersionEdit::encode_to omits the comparator name

---
 src/db/version_edit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..93c0531 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -205,9 +205,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(target);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from(self.comparator_.as_str()))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
-- 
2.43.0


From 4d33e8029e037f90eff63fa605a1e150d3ab0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:31 +0000
Subject: [PATCH 37/49] fix: VersionEdit::encode_to omits compaction and file
 keys

---
 src/db/db_format.rs    | 5 +++++
 src/db/version_edit.rs | 8 +++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4540254..d90b6b2 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -187,6 +187,11 @@ impl InternalKey {
         self.rep_
     }
 
+    /// 编码后的内容
+    pub fn as_slice(&self) -> &Slice {
+        &self.rep_
+    }
+
     /// 取得  Slice的长度
     pub fn encode_len(&self) -> usize {
         self.rep_.size()
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index 93c0531..dfde15e 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -230,8 +230,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(self.compact_pointers_[i].1.as_slice())?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -247,9 +246,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(f.get_smallest().as_slice())?;
+            encoder.put_length_prefixed_slice(f.get_largest().as_slice())?;
         }
         Ok(())
     }
-- 
2.43.0


From 088a98476e02c497e3bf6f411bfc6609071caf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 38/49] fix: HandleTable::remove leaves a dangling prev_hash in
 the new chain head

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..fe09ee2 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,9 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    if let Some(mut next_hash) = handle_mut.next_hash {
+                        unsafe { next_hash.as_mut() }.prev_hash = None;
+                    }
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From 1983cad2af76942b06572a6ad026d4a4e69392c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 39/49] fix: LRUCache uses an entry after freeing it

---
 src/util/cache.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index fe09ee2..80a3c0a 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -204,7 +204,7 @@ impl<T> HandleTable<T> {
         Ok(())
     }
 
-    /// 从hash表中删除数据, 并回收内存
+    /// 从hash表中删除数据, 不回收内存, 由调用方从lru链表中删除后再回收
     pub fn remove(&mut self, key: &Slice, hash: u32) -> Result<Option<HandleRef<T>>> {
         let index = self.find_index(hash);
         let mut head = self.list[index];
@@ -233,8 +233,6 @@ impl<T> HandleTable<T> {
                         next_hash_ptr.prev_hash = handle_mut.prev_hash;
                     }
                 }
-                // 回收内存
-                Self::drop_handle(handle.as_ptr());
                 self.elements -= 1;
                 return Ok(Some(handle));
             }
@@ -430,8 +428,9 @@ impl<T> LRUCache<T> {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
-                // 于从hash表中删除链表尾, 同时回收内存
+                // 于从hash表中删除链表尾, 再回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+                HandleTable::drop_handle(tail.as_ptr());
             }
         }
 
@@ -465,6 +464,8 @@ impl<T> LRUCache<T> {
             // 再删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            // 两处都已断开连接, 回收内存
+            HandleTable::drop_handle(removed.as_ptr());
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 594f71e2d762cd8be2f0858fcc4c3cbfeeb1a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 40/49] fix: LRUCache::insert of a present key keeps and counts
 the old entry

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 80a3c0a..bfcce45 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -410,6 +410,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // 已存在相同的key时, 先删除旧数据
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From 8909c1311611c910a104480bd69a748acd074c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 41/49] fix: LRUCache::insert evicts only one entry and exceeds
 its capacity

---
 src/util/cache.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index bfcce45..f29e0d3 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -425,15 +425,17 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
-            if let Some(tail) = self.tail_of_lru {
-                let tail_ref = unsafe { tail.as_ref() };
-                // 先删除lru链表尾
-                self.lru_remove(tail)?;
-                // 于从hash表中删除链表尾, 再回收内存
-                self.table.remove(&tail_ref.key, tail_ref.hash)?;
-                HandleTable::drop_handle(tail.as_ptr());
-            }
+        while self.usage >= self.capacity {
+            let tail = match self.tail_of_lru {
+                Some(tail) => tail,
+                None => break,
+            };
+            let tail_ref = unsafe { tail.as_ref() };
+            // 先删除lru链表尾
+            self.lru_remove(tail)?;
+            // 于从hash表中删除链表尾, 再回收内存
+            self.table.remove(&tail_ref.key, tail_ref.hash)?;
+            HandleTable::drop_handle(tail.as_ptr());
         }
 
         Ok(())
-- 
2.43.0


From 596e9cc5c118a38e1dda7bb913e86940f28f57a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 42/49] fix: HandleTable::prune releases only the first entry
 of a chain

---
 src/util/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index f29e0d3..9914376 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -244,9 +244,13 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+        for head in self.list.iter() {
+            // 回收整个链表的内存
+            let mut current = *head;
+            while let Some(handle) = current {
+                current = unsafe { handle.as_ref() }.next_hash;
+                Self::drop_handle(handle.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
-- 
2.43.0


From 1ff2d77e4b2e2a38ef0bde065d0c32b2e4e155aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 43/49] fix: dropping a cache leaks its entries

---
 src/util/cache.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 9914376..0ec7ddf 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -363,6 +363,13 @@ impl<T> HandleTable<T> {
     }
 }
 
+impl<T> Drop for HandleTable<T> {
+    /// 回收所有未删除的数据
+    fn drop(&mut self) {
+        self.prune();
+    }
+}
+
 struct LRUCache<T> {
     // hash表, 用于存放缓存数据
     table: HandleTable<T>,
-- 
2.43.0


From 18b03cef3650e608ba8008fad147bc524b44e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 44/49] fix: ShardLRUCache::lookup does not mark the entry as
 recently used

---
 src/util/cache.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 0ec7ddf..a9bb5cf 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -452,12 +452,13 @@ impl<T> LRUCache<T> {
         Ok(())
     }
 
-    /// 从lru缓存查询数据
-    pub fn look_up(&self, key: &Slice, hash: u32) -> Result<Option<Arc<T>>> {
+    /// 从lru缓存查询数据, 查询到的数据成为最近使用的
+    pub fn look_up(&mut self, key: &Slice, hash: u32) -> Result<Option<Arc<T>>> {
         match self.table.look_up(key, hash) {
             Ok(handle) => {
                 match handle {
                     Some(handle) => {
+                        self.lru_touch(handle)?;
                         // 返回为Arc<T>, 这样用户才可以和缓存在多个线程中共享数据
                         Ok(Some(unsafe { handle.as_ref() }.value.clone()))
                     }
@@ -525,6 +526,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     fn lru_append(&mut self, mut handle: HandleRef<T>) -> Result<()> {
+        unsafe { handle.as_mut() }.prev = None;
+        unsafe { handle.as_mut() }.next = None;
         if let None = self.head_of_lru {
             // 头节点为空时, 尾节点也为空
             self.head_of_lru = Some(handle);
@@ -544,6 +547,16 @@ impl<T> LRUCache<T> {
         Ok(())
     }
 
+    /// 将数据移动到lru链表头, 成为最近使用的
+    fn lru_touch(&mut self, mut handle: HandleRef<T>) -> Result<()> {
+        self.lru_remove(handle)?;
+        self.lru_append(handle)?;
+        let handle_mut = unsafe { handle.as_mut() };
+        handle_mut.in_cache = true;
+        self.usage += handle_mut.charge;
+        Ok(())
+    }
+
     /// 删除lru链表中的数据, 同时回收内存
     fn lru_remove(&mut self, mut handle: HandleRef<T>) -> Result<()> {
         let handle_mut = unsafe { handle.as_mut() };
@@ -686,7 +699,7 @@ impl<T> ShardLRUCache<T> {
 
 
     /// 创建ShardLruCache多线程使用
-    /// lookUp会加读锁, insert/erase/prune等写操作会加写锁
+    /// lookUp/insert/erase/prune等操作会加写锁, lookUp需要更新lru链表
     /// 持有写锁的线程panic后, 会导致锁中毒, 数据无法访问, 持有读锁线程panic不会中毒
     ///
     /// # Arguments
@@ -765,7 +778,7 @@ impl<T> ShardLRUCache<T> {
     pub fn lookup(&self, key: &Slice) -> Result<Option<Arc<T>>> {
         let hash = hash_slice(key);
         let shard = shard(hash);
-        self.shard[shard].read()?.look_up(key, hash)
+        self.shard[shard].write()?.look_up(key, hash)
     }
 
     /// 从shard中删除缓存数据
-- 
2.43.0


From 445f006c2384346804fd7bd2f83f8c45e9312033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 45/49] fix: Status::to_string runs code and message together
 for record errors

---
 src/util/status.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/status.rs b/src/util/status.rs
index c41900f..e994ef3 100644
--- a/src/util/status.rs
+++ b/src/util/status.rs
@@ -162,8 +162,8 @@ impl Status {
             KNotSupported  => "Not implemented: ",
             KInvalidArgument  => "Invalid argument: ",
             KIOError  => "IO error: ",
-            KBadRecord=> "wal bad record",
-            KRepeatedRecord => "repeated record"
+            KBadRecord=> "wal bad record: ",
+            KRepeatedRecord => "repeated record: "
         };
 
         if self.err.is_ok() {
-- 
2.43.0


From 20ee4f3be9cd61881b2a485981781f4e99174e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 46/49] Guarded access to histogram state for verification (cfg
 verif_hooks)

---
 src/util/histogram.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/util/histogram.rs b/src/util/histogram.rs
index f5d76ca..0aec0c1 100644
--- a/src/util/histogram.rs
+++ b/src/util/histogram.rs
@@ -391,6 +391,25 @@ impl Histogram {
     }
 }
 
+/// Access to the numbers a histogram holds, for external verification harnesses.
+#[cfg(verif_hooks)]
+impl Histogram {
+    /// min, max, num, sum, sum_squares
+    pub fn verif_totals(&self) -> [f64; 5] {
+        [self.min, self.max, self.num, self.sum, self.sum_squares]
+    }
+    pub fn verif_buckets(&self) -> &[f64] {
+        &self.buckets
+    }
+    pub fn verif_percentile(&self, p: f64) -> f64 {
+        self.percentile(p)
+    }
+    /// median, average, standard deviation
+    pub fn verif_summary(&self) -> [f64; 3] {
+        [self.median(), self.average(), self.standard_deviation()]
+    }
+}
+
 #[test]
 fn test_add() {
     let mut histogram = Histogram::default();
-- 
2.43.0


From 7dcfa7d7c74f573526df5c4bd73e83ac30dcca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 47/49] fix: Histogram standard deviation is NaN when rounding
 makes the variance negative Three samples of 0.113 give a variance of
 -1.5e-18.

---
 src/util/histogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/histogram.rs b/src/util/histogram.rs
index 0aec0c1..24ae9b0 100644
--- a/src/util/histogram.rs
+++ b/src/util/histogram.rs
@@ -387,7 +387,8 @@ impl Histogram {
             return 0.0;
         }
         let variance = (self.sum_squares * self.num - self.sum * self.sum) / (self.num * self.num);
-        return variance.sqrt();
+        // 舍入误差可能使方差略小于 0
+        return variance.max(0.0).sqrt();
     }
 }
 
-- 
2.43.0


From 65aa2e8c6d497e897402671f17b73df8b0d651d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 48/49] fix: LogReader goes on out of step with the blocks
 after a failed read The part of the block that was read was taken for the
 whole, so that bytes inside a record could be read as a record.  Interrupted
 reads are retried.

---
 src/db/log_reader.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index b1ee32a..665db61 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
 use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE};
@@ -123,12 +123,20 @@ impl LogReader {
         self.buf_len = 0;
         // read may deliver less than a block before the end of the file
         while self.buf_len < K_BLOCK_SIZE {
-            let n = self.file_reader.read(&mut self.buf[self.buf_len..])?;
-            if n == 0 {
-                self.eof = true;
-                break;
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => {
+                    self.eof = true;
+                    break;
+                }
+                Ok(n) => self.buf_len += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => {
+                    // 读取失败后无法再与 block 对齐
+                    self.buf_len = 0;
+                    self.eof = true;
+                    return Err(e.into());
+                }
             }
-            self.buf_len += n;
         }
         Ok(())
     }
-- 
2.43.0


From 8489cb57adcb211b3aac7d9584d584b60efa9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 49/49] fix: dropping a LinkedList leaks its elements

---
 src/util/linked_list.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 8ffb8e6..fdf9aff 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -250,6 +250,17 @@ impl<T> Default for LinkedList<T> {
     }
 }
 
+impl<T> Drop for LinkedList<T> {
+    fn drop(&mut self) {
+        let mut cur = self.head.take();
+        self.tail = None;
+        while let Some(node) = cur {
+            let node = unsafe { Box::from_raw(node.as_ptr()) };
+            cur = node.next;
+        }
+    }
+}
+
 impl<T> LinkedListBuilder<T> for LinkedList<T> {
     #[inline]
     fn new() -> Self {
-- 
2.43.0

