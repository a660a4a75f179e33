From f63aee341f973d63e344ee00b4ace50306c71871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:14 +0000
Subject: [PATCH 01/57] build: make ebi compile without the ffi_alp feature

---
 ebi/src/compressor.rs           | 17 ++++++++++++-----
 ebi/src/decoder/chunk_reader.rs |  4 ++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ebi/src/compressor.rs b/ebi/src/compressor.rs
index 2025644..d707f82 100644
--- a/ebi/src/compressor.rs
+++ b/ebi/src/compressor.rs
@@ -26,7 +26,7 @@ pub mod buff;
 pub mod chimp;
 pub mod chimp_n;
 pub mod elf;
-// #[cfg(feature = "ffi_alp")]
+#[cfg(feature = "ffi_alp")]
 pub mod ffi_alp;
 pub mod general_xor;
 pub mod gorilla;
@@ -302,8 +302,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => {}
+            | CompressorConfig::Snappy(_) => {}
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => {}
         }
     }
 
@@ -320,8 +321,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => None,
+            | CompressorConfig::Snappy(_) => None,
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => None,
         }
     }
 
@@ -358,6 +360,7 @@ impl CompressorConfig {
             CompressorConfig::Zstd(mut c) => just_write!(c, w),
             CompressorConfig::Gzip(mut c) => just_write!(c, w),
             CompressorConfig::Snappy(mut c) => just_write!(c, w),
+            #[cfg(feature = "ffi_alp")]
             CompressorConfig::FFIAlp(mut c) => just_write!(c, w),
         }
 
@@ -398,6 +401,10 @@ impl CompressorConfig {
             CompressionScheme::FFIAlp => {
                 Self::FFIAlp(ffi_alp::FFIAlpCompressorConfig::from_le_bytes(bytes))
             }
+            #[cfg(not(feature = "ffi_alp"))]
+            CompressionScheme::FFIAlp => {
+                unimplemented!("built without the `ffi_alp` feature")
+            }
         }
     }
 }
diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..42c2aa9 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -346,6 +346,10 @@ impl<R: Read> GeneralChunkReaderInner<R> {
             CompressionScheme::FFIAlp => {
                 GeneralChunkReaderInner::FFIAlp(ffi_alp::FFIAlpReader::new(handle, reader))
             }
+            #[cfg(not(feature = "ffi_alp"))]
+            CompressionScheme::FFIAlp => {
+                unimplemented!("built without the `ffi_alp` feature")
+            }
         })
     }
 }
-- 
2.43.0


From f12463775ebafc8dc6c32933b5cf29f9e5b281de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:37 +0000
Subject: [PATCH 02/57] fix: open files that contain no chunks

---
 ebi/src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..fcb28d9 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,8 +196,10 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
-        let config_size = buf[0] as usize;
+        // `buf` is empty if the file has no chunks
+        let mut config_size = [0u8; 1];
+        input.read_exact(&mut config_size)?;
+        let config_size = config_size[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
 
-- 
2.43.0


From 051d5c2728f3d50375fd3defe225658a1c4c9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:05 +0000
Subject: [PATCH 03/57] fix: keep Elf lossless where erased bits cannot be
 recovered exactly

---
 ebi/src/compression_common/elf.rs   | 16 ++++++++++++++++
 ebi/src/compressor/elf.rs           |  7 ++++++-
 ebi/src/decoder/chunk_reader/elf.rs | 12 +-----------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..e9e07c2 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -57,6 +57,22 @@ pub fn round_up(v: f64, alpha: u32) -> f64 {
     }
 }
 
+/// Recovers the original value from the erased value `v_prime` and its `beta_star`.
+pub fn recover_by_beta_star(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        let alpha = beta_star - sp - 1;
+        round_up(v_prime, alpha as u32)
+    }
+}
+
 fn get_significant_count(v: f64, sp: i32, last_beta_star: i32) -> i32 {
     let mut i = if last_beta_star != i32::MAX && last_beta_star != 0 {
         std::cmp::max(last_beta_star - sp - 1, 1)
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..a7eeab7 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -122,7 +122,12 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // Erase only if the decoder recovers exactly `v`, rounding errors may prevent that.
+            if beta_star < 16
+                && erase_bits > 4
+                && delta != 0
+                && elf::recover_by_beta_star(f64::from_bits(mask & v_bits), beta_star) == v
+            {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..c5940ba 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,17 +66,7 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
+        let v = compression_common::elf::recover_by_beta_star(v_prime, self.last_beta_star);
         Ok(Some(v))
     }
 
-- 
2.43.0


From 4b9dee306406e1330ea4b8461c4df5ac05669a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:10 +0000
Subject: [PATCH 04/57] fix: retry interrupted reads of the encoder input

A reader that reported ErrorKind::Interrupted made chunked encoding fail,
or cut a chunk short, instead of the read being retried.
---
 ebi/src/encoder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..2a3db23 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,10 +280,9 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
+            // An interrupted read is not an error and must be retried.
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                 if n_read == 0 {
                     return Err(e.into());
                 }
-- 
2.43.0


From 9784f0f563403386f59321fe3889d8dd1ea35a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:10 +0000
Subject: [PATCH 05/57] fix: reject a chunk size of zero

Encoding with RecordCount(0) or ByteSizeBestEffort(0) took the zero-length
read for end of input and silently wrote a file without any record.
---
 ebi/src/encoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 2a3db23..4feb9c7 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -316,6 +316,13 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
     pub fn write<W: Write>(&mut self, mut f: W) -> Result<()> {
         let chunk_option = *self.file_writer.chunk_option();
 
+        if let ChunkOption::RecordCount(0) | ChunkOption::ByteSizeBestEffort(0) = chunk_option {
+            // No record fits in such a chunk, so the input could never be consumed.
+            return Err(
+                io::Error::new(io::ErrorKind::InvalidInput, "chunk size must not be zero").into(),
+            );
+        }
+
         match chunk_option {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
-- 
2.43.0


From b6a7073188a4abd5dceea724a3b18b340e5592b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 06/57] fix: report a failed chunk read of Chimp128 and BUFF as
 an error

Both chunk readers panicked when reading the chunk failed; every other
chunk reader returns the I/O error.
---
 ebi/src/decoder/chunk_reader.rs         | 4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 8 ++++----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 42c2aa9..9d91254 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..180732f 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -37,20 +37,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..234402d 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 03f64a1c411d2e29dafe3b3a29f333a74607f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:46 +0000
Subject: [PATCH 07/57] fix: refuse to open a file whose footer offset was
 never written

A file left behind by an interrupted encoding has a footer offset of 0, and
opening it parsed the file header as a footer: depending on the file this
panicked, or yielded a decoder over garbage.
---
 ebi/src/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index fcb28d9..ec23e4c 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -159,6 +159,14 @@ impl FileReader {
             .header()
             .ok_or(DecoderError::PreconditionsNotMet)?
             .footer_offset();
+        // The offset is written last: a smaller one means that the file was never completed.
+        if footer_offset < size_of::<FileHeader>() as u64 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "the footer offset is missing: the file is incomplete",
+            )
+            .into());
+        }
         input.seek(io::SeekFrom::Start(footer_offset))?;
         Ok(())
     }
-- 
2.43.0


From f951f8ffbc2a8480a4414e9f2f926ea3382e45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 08/57] fix: respect the record mask in BUFF filter shortcuts

When a chunk could be decided as a whole (all values equal, or the constant
outside the chunk's range) every record was returned, also those that the
given bitmask excludes.
---
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 17 ++++++++++-------
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 15 +++++++++------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..0f9f9a4 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -318,18 +318,21 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         fractional_part_bits_length as i32,
     );
 
-    let all = || {
-        let mut all = RoaringBitmap::new();
-        all.insert_range(logical_offset..(number_of_records + logical_offset));
-        all
+    // All the records to be evaluated
+    let all = |bitmask: Option<RoaringBitmap>| {
+        bitmask.unwrap_or_else(|| {
+            let mut all = RoaringBitmap::new();
+            all.insert_range(logical_offset..(number_of_records + logical_offset));
+            all
+        })
     };
     let none = RoaringBitmap::new;
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
-        return if IS_GREATER { all() } else { none() };
+        return if IS_GREATER { all(bitmask) } else { none() };
     }
     if fixed_representation_bits_length == 0 {
-        let all_if_or_none = |p: bool| if p { all() } else { none() };
+        let all_if_or_none = |p: bool| if p { all(bitmask) } else { none() };
         return match (IS_GREATER, INCLUSIVE) {
             (true, true) => all_if_or_none(fixed_base64 >= fixed_pred),
             (true, false) => all_if_or_none(fixed_base64 > fixed_pred),
@@ -346,7 +349,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
             64 - delta_fixed_pred.leading_zeros()
         };
         if fixed_representation_bits_length < pred_fixed_representation_bits_length {
-            return if IS_GREATER { none() } else { all() };
+            return if IS_GREATER { none() } else { all(bitmask) };
         }
     }
 
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..673d1e4 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -93,10 +93,13 @@ pub(crate) fn buff_simd256_equal_filter(
         fractional_part_bits_length as i32,
     );
 
-    let all = || {
-        let mut all = RoaringBitmap::new();
-        all.insert_range(logical_offset..(number_of_records + logical_offset));
-        all
+    // All the records to be evaluated
+    let all = |bitmask: Option<RoaringBitmap>| {
+        bitmask.unwrap_or_else(|| {
+            let mut all = RoaringBitmap::new();
+            all.insert_range(logical_offset..(number_of_records + logical_offset));
+            all
+        })
     };
     let none = RoaringBitmap::new;
     // First Skip all the evaluation based on delta base
@@ -105,7 +108,7 @@ pub(crate) fn buff_simd256_equal_filter(
     }
     if fixed_representation_bits_length == 0 {
         return if fixed_pred == fixed_base64 {
-            all()
+            all(bitmask)
         } else {
             none()
         };
@@ -196,7 +199,7 @@ pub(crate) fn buff_simd256_equal_filter(
             next_result_bitmask
         }
     } else {
-        result_bitmask.unwrap_or_else(all)
+        all(result_bitmask)
     }
 }
 
-- 
2.43.0


From 10b4a02e4c3a579254976d9bc769973c5dc341f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 09/57] fix: do not match BUFF records against a truncated
 constant

An equality constant above the range of a chunk was truncated to the bits
the chunk stores, so that unrelated records matched it (and were missing
from the result of the negated predicate).
---
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index 673d1e4..ecc3bd9 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -114,7 +114,11 @@ pub(crate) fn buff_simd256_equal_filter(
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
+    if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
+        // larger than any value in the chunk
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0


From 09d144d0a5f3dfbfaf2acdc1679aa191aa3d8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 10/57] fix: saturate BUFF constants beyond the fixed-point
 range

A filter constant whose fixed-point form needs more than 63 bits, e.g. an
infinity, was shifted by an out-of-range amount and compared as garbage
(with a debug print).
---
 ebi/src/compression_common/buff.rs              | 5 +++--
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..26c9c0b 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -13,8 +13,9 @@ fn into_fixed_representation(value: f64, decimal_length: i32) -> i64 {
     let exp = ((v_bits & EXP_MASK) >> 52) as i32 - 1023;
     let sign = v_bits & FIRST_ONE;
 
-    if (63 - exp - decimal_length) <= 0 || (63 - exp - decimal_length) >= 64 {
-        dbg!(value, exp, decimal_length, 63 - exp - decimal_length);
+    if exp + decimal_length >= 63 {
+        // out of the range of the fixed representation, saturate
+        return if sign == 0 { i64::MAX } else { i64::MIN };
     }
     let mut fixed = if (63 - exp - decimal_length) >= 64 {
         debug_assert!(63 - exp - decimal_length == 64);
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index 0f9f9a4..fa6f2d4 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -341,7 +341,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     {
         let pred_fixed_representation_bits_length = if delta_fixed_pred == 0 {
             0
-- 
2.43.0


From 60f6cc1dce38186a30331be543a29eecade35854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 11/57] fix: respect the record mask when summing a constant
 BUFF chunk

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..49e107f 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -77,10 +77,16 @@ pub(super) fn sum_with_bitmask(
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
+    let accumulated_len = if let Some(bitmask) = bitmask {
+        bitmask.len() as i64
+    } else {
+        number_of_records as i64
+    };
+
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
@@ -108,11 +114,6 @@ pub(super) fn sum_with_bitmask(
         sum += subcolumn_sum;
     }
 
-    let accumulated_len = if let Some(bitmask) = bitmask {
-        bitmask.len() as i64
-    } else {
-        number_of_records as i64
-    };
     let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
 
     Ok(sum)
-- 
2.43.0


From 17f15a5f7911acae953703f57c47566abb2ed817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 12/57] fix: return the minimum of a decompressed delta-sprintz
 chunk

Once a chunk had been materialized, min() of the chunk reader returned the
maximum.
---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..3a8edce 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -210,7 +211,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From f78fca2dbc59f5a78b480a84702a9d66af7732ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 13/57] fix: sum no record of a delta-sprintz chunk to zero

A mask that selects records of other chunks only made the chunk reader's
sum NaN; all other readers, and an empty mask, give 0.
---
 ebi/src/decoder/chunk_reader/sprintz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 3a8edce..f23303b 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -289,7 +289,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 6da052be3b7ee72e54189ea1e38978756c2fa239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 14/57] fix: return the values of a single column without an
 aggregation

Aggregation::none(Expr::Index(i)) panicked at a todo!().
---
 ebi/src/api/decoder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..0512b6c 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -815,7 +815,16 @@ impl AggregationKind {
         bitmask: Option<&RoaringBitmap>,
     ) -> decoder::Result<AggregationResult> {
         Ok(match self {
-            AggregationKind::None => todo!(),
+            AggregationKind::None => {
+                let mut output = DecoderOutput::from_writer(Cursor::new(Vec::new()));
+                decoder.materialize(&mut output, bitmask, None)?;
+                let bytes = output.into_writer().into_inner();
+                let values: Vec<f64> = bytes
+                    .chunks_exact(size_of::<f64>())
+                    .map(|b| f64::from_ne_bytes(b.try_into().unwrap()))
+                    .collect();
+                values.into()
+            }
             AggregationKind::Max => decoder.max(bitmask, None)?.into(),
             AggregationKind::Min => decoder.min(bitmask, None)?.into(),
             AggregationKind::Sum => decoder.sum(bitmask, None)?.into(),
-- 
2.43.0


From e3856e0ce39424e5a493c1898c603808abb5a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 15/57] fix: refuse to combine columns that are split into
 different chunks

The records of such columns were silently paired with the wrong partner, or the
column with fewer chunks was indexed out of bounds.
---
 ebi/src/api/decoder.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 0512b6c..601aaa6 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -864,6 +864,18 @@ impl Aggregation {
         Self::new(AggregationKind::None, expr)
     }
 
+    /// Columns are combined chunk by chunk, so all of them have to be split at the same records.
+    fn check_same_chunk_layout<R: Read + Seek>(decoders: &[Decoder<R>]) -> decoder::Result<()> {
+        let layout = |d: &Decoder<R>| {
+            let ranges = d.chunk_handles.iter().map(|h| h.logical_record_range_u32());
+            ranges.collect::<Vec<_>>()
+        };
+        if decoders.is_empty() || decoders.windows(2).any(|w| layout(&w[0]) != layout(&w[1])) {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
+        Ok(())
+    }
+
     pub fn compute<R: Read + Seek>(
         &self,
         decoders: &mut [Decoder<R>],
@@ -874,6 +886,7 @@ impl Aggregation {
             // We can directly access the chunk reader using in-situ query execution if possible.
             return self.kind.dispatch(&mut decoders[*index], bitmask);
         }
+        Self::check_same_chunk_layout(decoders)?;
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         let mut result = AggregationResult::zero(self.kind);
         for i in (0..number_of_chunks).map(ChunkId::new) {
@@ -906,6 +919,10 @@ impl Aggregation {
                 results.push(AggregationResult::zero(aggr.kind));
             }
         }
+        if computed.iter().all(|&computed| computed) {
+            return Ok(results);
+        }
+        Self::check_same_chunk_layout(decoders)?;
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         for i in (0..number_of_chunks).map(ChunkId::new) {
             let mut readers = decoders
-- 
2.43.0


From e9859dd2df0a11f4e378e872a47c6d69cb46cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 16/57] fix: reject an empty target vector in knn1

The search looped forever on it.
---
 ebi/src/api/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 601aaa6..16609ea 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,9 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
-- 
2.43.0


From 1b89751867dc33c6e3eb7a706b56e6e79e9be989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 17/57] fix: continue behind a knn1 vector that spans chunks

The records of the vector that lie in the later chunk were read again as the
start of the next vector, and a vector spanning more than two chunks was cut.
---
 ebi/src/api/decoder.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 16609ea..e7e68a1 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -498,17 +498,20 @@ impl<R: Read + Seek> Decoder<R> {
             if remaining_records != 0 {
                 // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
                 let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
+                let remaining_target_end = remaining_target_start + n_records_in_vector;
+                processing_vector.distance += chunk_reader
+                    .distance_squared(0, &target[remaining_target_start..remaining_target_end])?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                remaining_records -= n_records_in_vector;
+                offset += n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance <= min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From 896dd2cb476d07e02a1679a5fbf6b91e70370773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 18/57] fix: check the shapes given to matmul

A data matrix without elements divided by zero, a target matrix that does not
have the given shape produced a result of another shape, and a file without
records panicked.
---
 ebi/src/api/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index e7e68a1..8059162 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -623,14 +623,21 @@ impl<R: Read + Seek> Decoder<R> {
 
         let is_matrix_shape_invalid = data_columns != target_rows;
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % (data_rows * data_columns) != 0;
-        if is_matrix_shape_invalid || is_data_matrix_shape_aligned_to_number_of_records_invalid {
+            data_rows * data_columns == 0 || number_of_records % (data_rows * data_columns) != 0;
+        let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
+        if is_matrix_shape_invalid
+            || is_data_matrix_shape_aligned_to_number_of_records_invalid
+            || is_target_matrix_shape_invalid
+        {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
 
         let batch_size = number_of_records / (data_rows * data_columns);
 
         let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
+        if batch_size == 0 {
+            return Ok(result_matrices.into_boxed_slice());
+        }
 
         let mut offset_in_chunk = 0;
         let mut chunk_index = 0;
-- 
2.43.0


From 7cf04eaff1eb37aadd858cb8be37315e837f8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 19/57] fix: multiply matrices whose rows span chunks

The part of a matrix that lies in a later chunk was not read, and the following
matrices were taken from the wrong records.
---
 ebi/src/api/decoder.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 8059162..e8924e1 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -643,22 +643,32 @@ impl<R: Read + Seek> Decoder<R> {
         let mut chunk_index = 0;
         let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
 
-        for _ in 0..batch_size {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-            }
-            for row_index in 0..data_rows {
-                for target_column in target_matrix.chunks_exact(target_rows) {
-                    let result = chunk_reader
-                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;
-
-                    result_matrices.push(result);
+        for row_index in 0..batch_size * data_rows {
+            result_matrices.resize((row_index + 1) * target_columns, 0.0);
+            // A row may span chunks: each chunk contributes the dot products of the part it holds.
+            let mut offset_in_row = 0;
+            while offset_in_row < data_columns {
+                if offset_in_chunk >= chunk_reader.number_of_records() as usize {
+                    offset_in_chunk = 0;
+                    chunk_index += 1;
+                    timer += chunk_reader.segmented_execution_times();
+                    chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+                }
+                let records_left_in_chunk =
+                    chunk_reader.number_of_records() as usize - offset_in_chunk;
+                let n_records = (data_columns - offset_in_row).min(records_left_in_chunk);
+                let row_part = offset_in_row..offset_in_row + n_records;
+                let results = &mut result_matrices[row_index * target_columns..];
+                for (result, target_column) in results
+                    .iter_mut()
+                    .zip(target_matrix.chunks_exact(target_rows))
+                {
+                    *result += chunk_reader
+                        .dot_product(offset_in_chunk, &target_column[row_part.clone()])?;
                 }
+                offset_in_row += n_records;
+                offset_in_chunk += n_records;
             }
-            offset_in_chunk += data_rows * data_columns;
         }
         debug_assert!(chunk_reader.is_last_chunk());
         timer += chunk_reader.segmented_execution_times();
-- 
2.43.0


From 4654ab2e798810bbf107f661ebfefa8938359e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 20/57] fix: restart each decompression of an uncompressed
 chunk at its first record

After a partially or fully consumed decompress_iter the same chunk reader
returned later records or an unexpected end of the chunk.
---
 ebi/src/decoder/chunk_reader/uncompressed.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..01731ff 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +80,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader.rewind()?;
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +125,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From 934738ffbf0cbc9c768fc50088fcf3772471473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 21/57] fix: restart each decompression of a run-length chunk
 at its first record

---
 ebi/src/decoder/chunk_reader/run_length.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..891812e 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,7 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -73,6 +73,8 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
+        self.reader
+            .seek(SeekFrom::Start(self.header_size() as u64))?;
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
             self.reader.read_exact(&mut buf)?;
@@ -99,6 +101,8 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader
+            .seek(SeekFrom::Start(self.header_size() as u64))?;
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +161,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
-- 
2.43.0


From bf7e217851e4e9eac6bce000d4437d93ca6e7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 22/57] fix: restart each decompression of an XOR-compressed
 chunk at its first record

---
 ebi/src/decoder/chunk_reader/general_xor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
-- 
2.43.0


From 28ac55083528ccd4d90f958240638d80f86329fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 23/57] fix: restart each decompression of a Chimp128 chunk at
 its first record

---
 ebi/src/decoder/chunk_reader/chimp_n.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 234402d..0fe284d 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
-- 
2.43.0


From b0a00c395b75aa1a3145a63576941aec7a0adbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 24/57] fix: restart each decompression of a delta-sprintz
 chunk at its first record

E.g. a dot product after a sum on the same chunk reader decoded garbage.
---
 ebi/src/decoder/chunk_reader/sprintz.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index f23303b..4c286e8 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -59,6 +59,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
-- 
2.43.0


From 42ae12a933f19ab45c378c31d7f6e8823e105564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 25/57] fix: count the bits, not the bytes, an XOR compressor
 has buffered

total_bytes_buffered announced one byte more than the compressor delivers
whenever the end marker fits into the last started byte.
---
 ebi/src/compressor/general_xor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/compressor/general_xor.rs b/ebi/src/compressor/general_xor.rs
index c7b79a0..351655c 100644
--- a/ebi/src/compressor/general_xor.rs
+++ b/ebi/src/compressor/general_xor.rs
@@ -148,7 +148,7 @@ impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T> {
 
     fn total_bytes_buffered(&self) -> usize {
         // EOF: f64::NAN + 1 bit
-        let n_bits = self.w.as_slice().len() * 8 + self.encoder.simulate_close();
+        let n_bits = self.w.number_of_bits_written() + self.encoder.simulate_close();
 
         n_bits.next_multiple_of(8) / 8
     }
-- 
2.43.0


From 00d92d857ac6f5a380958649c1f52e977d952e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 26/57] fix: forget the rewound records of an uncompressed
 chunk

total_bytes_in still counted them.
---
 ebi/src/compressor/uncompressed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..db0c81d 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -1,4 +1,7 @@
-use std::{mem::size_of_val, slice};
+use std::{
+    mem::{size_of, size_of_val},
+    slice,
+};
 
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
@@ -87,6 +90,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From 727072be7da9f8011dd06ee26234ab01d0f979a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 27/57] fix: accept an empty input in the run-length compressor

Compressing or appending no record panicked.
---
 ebi/src/compressor/run_length.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebi/src/compressor/run_length.rs b/ebi/src/compressor/run_length.rs
index f9a0eef..4788f88 100644
--- a/ebi/src/compressor/run_length.rs
+++ b/ebi/src/compressor/run_length.rs
@@ -63,7 +63,7 @@ impl Default for RunLengthCompressor {
 impl Compressor for RunLengthCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
         self.reset();
-        let is_starting = self.previous_run_count == 0;
+        let is_starting = self.previous_run_count == 0 && !input.is_empty();
         if is_starting {
             self.previous_value = input[0];
             self.previous_run_count = 1;
@@ -139,7 +139,7 @@ impl Compressor for RunLengthCompressor {
 
 impl AppendableCompressor for RunLengthCompressor {
     fn append_compress(&mut self, input: &[f64]) {
-        let is_starting = self.previous_run_count == 0;
+        let is_starting = self.previous_run_count == 0 && !input.is_empty();
         if is_starting {
             self.previous_value = input[0];
             self.previous_run_count = 1;
-- 
2.43.0


From f387343ffd7b77fcd62a513be24f6fd06f6ebf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 28/57] fix: report the end of the buffer after skipping beyond
 it

read_bits and peak_bits subtracted with overflow and read out of bounds.
---
 ebi/src/io/bit_read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..1a16318 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,8 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        let cursor = self.byte_pos * 8 + self.bit_pos;
+        if (self.buffer.as_ref().len() * 8).saturating_sub(cursor) < n as usize {
             return None;
         }
 
-- 
2.43.0


From 040a68efe7d9dc3a8f8335bbe4de786f1fabb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:35 +0000
Subject: [PATCH 29/57] fix: compare delta-Sprintz values with constants finer
 than the scale

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 4c286e8..1cce991 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -117,6 +117,10 @@ impl QueryExecutor for DeltaSprintzReader {
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
         let predicate_encoded = predicate.map(|v| (v * scale as f64).round() as i64);
+        // A constant that lies between two quantized values has no quantized counterpart
+        if predicate_encoded.map(|q| q as f64 / scale as f64) != predicate {
+            return default_filter(self, predicate, bitmask, logical_offset, timer);
+        }
         let all = || {
             let mut all = roaring::RoaringBitmap::new();
             all.insert_range(
-- 
2.43.0


From 97494ce4bf8ea3edf92233f95a93bba09539e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:35 +0000
Subject: [PATCH 30/57] fix: read a BUFF chunk in full for precisions beyond
 the precision table

---
 ebi/src/decoder/chunk_reader/buff/controlled_precision.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
index 2e3a061..d1154d4 100644
--- a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
+++ b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
@@ -21,7 +21,9 @@ pub fn decode_with_precision(bytes: &[u8], precision: u32) -> Vec<f64> {
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
-    let controlled_fractional_part_bits_length = PRECISION_MAP[precision as usize] as u32;
+    let controlled_fractional_part_bits_length = PRECISION_MAP
+        .get(precision as usize)
+        .map_or(fractional_part_bits_length, |&bits| bits as u32);
     let bits_unnecessary =
         fractional_part_bits_length.saturating_sub(controlled_fractional_part_bits_length);
 
-- 
2.43.0


From 052024a2b435f73fae4032e1294906832bea36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 31/57] fix: select no BUFF record in a range bounded by NaN

---
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index fa6f2d4..e612ecd 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -327,6 +327,10 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         })
     };
     let none = RoaringBitmap::new;
+    // No value is ordered relative to NaN
+    if pred.is_nan() {
+        return none();
+    }
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return if IS_GREATER { all(bitmask) } else { none() };
-- 
2.43.0


From 04711fa4ad297a43cbc00d680cf9e9f9a7facc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:47 +0000
Subject: [PATCH 32/57] fix: sum fixed-point chunks without overflowing 64 bits

---
 ebi/src/decoder/chunk_reader/buff/sum.rs |  9 +++++----
 ebi/src/decoder/chunk_reader/sprintz.rs  | 10 ++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 49e107f..91eb12a 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -89,7 +89,8 @@ pub(super) fn sum_with_bitmask(
         return Ok(fp * accumulated_len as f64);
     }
 
-    let mut sum = 0;
+    // The sum of 64-bit values may exceed 64 bits
+    let mut sum = 0i128;
     let n_byte_subcolumns = fixed_representation_bits_length / 8;
     let bits_subcolumn_length = fixed_representation_bits_length % 8;
 
@@ -98,7 +99,7 @@ pub(super) fn sum_with_bitmask(
             .read_n_byte(number_of_records as usize)
             .map_err(|_| DecoderError::UnexpectedEndOfChunk)?;
         let subcolumn_sum = sum_byte_subcolumn(chunk, bitmask, logical_offset);
-        let subcolumn_sum_scaled = subcolumn_sum << ((i * 8 + bits_subcolumn_length) as u64);
+        let subcolumn_sum_scaled = (subcolumn_sum as i128) << (i * 8 + bits_subcolumn_length);
         sum += subcolumn_sum_scaled;
     }
     if bits_subcolumn_length != 0 {
@@ -111,10 +112,10 @@ pub(super) fn sum_with_bitmask(
         )?;
         // sum += subcolumn_sum as f64 / scale;
         // sum <<= bits_subcolumn_length;
-        sum += subcolumn_sum;
+        sum += subcolumn_sum as i128;
     }
 
-    let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
+    let sum = (sum + base_fixed64 as i128 * accumulated_len as i128) as f64 / scale;
 
     Ok(sum)
 }
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 1cce991..99b204b 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -291,7 +291,8 @@ fn sum(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    // The sum of 64-bit values may exceed 64 bits
+    let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
         return Ok(0.0);
@@ -308,7 +309,7 @@ fn sum(
             continue;
         }
 
-        sum += quantized;
+        sum += quantized as i128;
         if let Some(next_logical_record_index) = bitmask.next() {
             next = next_logical_record_index;
         } else {
@@ -339,7 +340,8 @@ fn sum_without_bitmask(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    // The sum of 64-bit values may exceed 64 bits
+    let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
     for _ in 0..number_of_records {
         let zigzag_delta = bit_reader
@@ -349,7 +351,7 @@ fn sum_without_bitmask(
         let quantized = previous_value_quantized + delta;
         previous_value_quantized = quantized;
 
-        sum += quantized;
+        sum += quantized as i128;
     }
     comparison_timer.stop();
 
-- 
2.43.0


From 837b427a7d3f03b30cdff45c2c385826cff707a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:30 +0000
Subject: [PATCH 33/57] fix: report values csv2bin could not write

---
 tools/src/csv2bin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/csv2bin.rs b/tools/src/csv2bin.rs
index ae1a61b..547f657 100644
--- a/tools/src/csv2bin.rs
+++ b/tools/src/csv2bin.rs
@@ -102,6 +102,10 @@ fn process_file(path: &Path) -> Result<()> {
             }
         }
 
+        writer
+            .flush()
+            .context("Failed to write to output file")?;
+
         Ok(())
     };
 
-- 
2.43.0


From bb63ce18e40f67e6ebddf36ad07549d7f680d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:30 +0000
Subject: [PATCH 34/57] fix: collect the statistics of files that contain NaN

---
 tools/src/collect-stats.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 1235453..2293a8f 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -179,14 +179,8 @@ fn compute_stats(decimal_precisions: &[usize], values: &[f64], exponents: &[i32]
     let dec_mean = mean_usize(decimal_precisions);
     let dec_std_dev = std_dev_usize(decimal_precisions, dec_mean);
 
-    let &value_max = values
-        .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
-    let &value_min = values
-        .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+    let &value_max = values.iter().max_by(|a, b| a.total_cmp(b)).unwrap();
+    let &value_min = values.iter().min_by(|a, b| a.total_cmp(b)).unwrap();
     let value_mean = mean_f64(values);
     let value_std_dev = std_dev_f64(values, value_mean);
 
-- 
2.43.0


From bbd077514a6eade3e70749632059c0a261577946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:30 +0000
Subject: [PATCH 35/57] fix: count the decimals of numbers with an upper-case
 exponent

---
 experimenter/src/lib.rs    | 2 +-
 tools/src/collect-stats.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 844c315..1d01705 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -365,7 +365,7 @@ pub enum Output {
 /// assert_eq!(get_decimal_precision("-99"), 0);
 /// ```
 pub fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
 
diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 2293a8f..8417644 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
         if let Some(dot_pos) = base.find('.') {
-- 
2.43.0


From 75b69181f99f031a4e92529eefd14ae74cd1b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:53 +0000
Subject: [PATCH 36/57] fix: list the averages of TPC-H query 1 in the order of
 their names

---
 experimenter/src/tpch.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/tpch.rs b/experimenter/src/tpch.rs
index fd2d683..0be62fe 100644
--- a/experimenter/src/tpch.rs
+++ b/experimenter/src/tpch.rs
@@ -308,9 +308,8 @@ pub fn process_h01(path: impl AsRef<Path>) -> anyhow::Result<HashMap<String, Tpc
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
-        // swap the order of the result for the consistency with SQL
-        result.swap(4, 6);
-        query_names.swap(4 - 3, 6 - 3);
+        // move AVG(l_discount) behind the other averages for the consistency with SQL
+        result[4..7].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01".to_string(),
-- 
2.43.0


From 5ae67685361451db2a648bb20f94e47e2db437bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 37/57] fix: read back the results of an experiment

---
 ebi/src/time.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index e3a034e..9382e11 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -125,18 +125,33 @@ impl<T: KindIndexable, const N: usize> AddAssign for SegmentedExecutionTimesImpl
     }
 }
 
+/// Internally tagged enums cannot hold a `u128` while they look for their tag.
+#[cfg(feature = "serde")]
+fn deserialize_nanos<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<u128, D::Error> {
+    u64::deserialize(deserializer).map(u128::from)
+}
+
 #[repr(C, packed(1))]
 #[derive(Debug, Clone, Copy, Eq, PartialEq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct SerializableSegmentedExecutionTimes {
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub io_read_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub io_write_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub xor_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub delta_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub quantization_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub bit_packing_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub compare_insert_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub sum_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_nanos"))]
     pub decompression_nanos: u128,
 }
 serialize::impl_to_le!(
-- 
2.43.0


From 7a89de904a61fc8bba1438879a1b321438c5be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 38/57] fix: refuse to create filters for a file without
 records

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4a0d53a..69e4fd1 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -1394,6 +1394,7 @@ fn create_config_command(
 
     let number_of_records = floats.len() as u64;
 
+    anyhow::ensure!(!floats.is_empty(), "The input file holds no record");
     anyhow::ensure!(
         !floats.iter().any(|&f| f.is_nan()),
         "Found NaN in the input file"
-- 
2.43.0


From bb77f6c3f15c6cf6adb6ec632b6a746144038c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 39/57] fix: report results that could not be written

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 69e4fd1..65dbb8e 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -811,6 +811,7 @@ fn write_output_json(
     let mut writer = std::io::BufWriter::new(output_file);
     let write_result = writer
         .write_all(output_json.as_bytes())
+        .and_then(|()| writer.flush())
         .context("Failed to write output");
     if let Err(e) = write_result {
         eprintln!("{}\n", output_filename.as_ref().display());
-- 
2.43.0


From 4e978dcac0161feb7806a8ffa417d99e54b0c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:29 +0000
Subject: [PATCH 40/57] fix: drop the old maxima and sums of a result that is
 measured again

---
 experimenter/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 1d01705..c1b886c 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -209,6 +209,8 @@ impl AllOutputInner {
         self.compress.clear();
         self.filters.clear();
         self.materialize.clear();
+        self.max.clear();
+        self.sum.clear();
     }
 }
 
-- 
2.43.0


From f58a34c69473fd9894f863ea47b81659e7b145e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:04 +0000
Subject: [PATCH 41/57] fix: do not allocate memory by an unchecked chunk count
 when reading a footer

---
 ebi/src/decoder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index ec23e4c..c55760b 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -194,10 +194,17 @@ impl FileReader {
         let footer0 = FileFooter0::from_le_bytes(&buf);
         let n_chunks = footer0.number_of_chunks as usize;
 
-        let chunk_footers_size = size_of::<ChunkFooter>() * n_chunks;
-
-        buf.resize(chunk_footers_size, 0);
-        input.read_exact(&mut buf[..])?;
+        // The count may be damaged: allocate no more than the input has.
+        let chunk_footers_size = (size_of::<ChunkFooter>() as u64).saturating_mul(n_chunks as u64);
+
+        buf.clear();
+        let n_read = input
+            .by_ref()
+            .take(chunk_footers_size)
+            .read_to_end(&mut buf)?;
+        if (n_read as u64) < chunk_footers_size {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
 
         let chunk_footers = buf[..]
             .chunks_exact(size_of::<ChunkFooter>())
-- 
2.43.0


From 6dd12ff640273cc24dcc2681b36ff1ff28fab55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:24 +0000
Subject: [PATCH 42/57] fix: refuse a file whose chunk table is inconsistent

---
 ebi/src/decoder.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index c55760b..08806d7 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -211,6 +211,12 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
+        if !Self::is_chunk_table_consistent(header, &footer0, &chunk_footers) {
+            return Err(
+                io::Error::new(io::ErrorKind::InvalidData, "the chunk table is damaged").into(),
+            );
+        }
+
         // `buf` is empty if the file has no chunks
         let mut config_size = [0u8; 1];
         input.read_exact(&mut config_size)?;
@@ -236,6 +242,32 @@ impl FileReader {
         Ok(self.footer.as_ref().unwrap())
     }
 
+    /// Chunks lie one after another between the header and the footer, and none of them is empty.
+    fn is_chunk_table_consistent(
+        header: &NativeFileHeader,
+        footer0: &FileFooter0,
+        chunk_footers: &[ChunkFooter],
+    ) -> bool {
+        let end = (header.footer_offset(), footer0.number_of_records);
+        let starts = || {
+            chunk_footers
+                .iter()
+                .map(|chunk| (chunk.physical_offset, chunk.logical_offset))
+                .chain(std::iter::once(end))
+        };
+        let is_first_at_start = match chunk_footers.first() {
+            Some(chunk) => {
+                chunk.physical_offset == size_of::<FileHeader>() as u64 && chunk.logical_offset == 0
+            }
+            None => footer0.number_of_records == 0,
+        };
+
+        is_first_at_start
+            && starts()
+                .zip(starts().skip(1))
+                .all(|(start, next)| start.0 <= next.0 && start.1 < next.1)
+    }
+
     /// Returns the footer of the file if it is already read.
     pub fn footer(&self) -> Option<&NativeFileFooter> {
         self.footer.as_ref()
-- 
2.43.0


From 95e6b7c249515a43f922fa43550901020f37dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 43/57] fix: refuse a compressor config whose size does not fit
 the scheme

---
 ebi/src/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 08806d7..29f1af2 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -221,12 +221,22 @@ impl FileReader {
         let mut config_size = [0u8; 1];
         input.read_exact(&mut config_size)?;
         let config_size = config_size[0] as usize;
-        buf.resize(config_size, 0);
+        // Longer than every configuration, as a damaged size may be less than the scheme needs
+        buf.clear();
+        buf.resize(usize::from(u8::MAX), 0);
         input.read_exact(&mut buf[..config_size])?;
 
         let compressor_config =
             CompressorConfig::from_le_bytes(header.config().compression_scheme(), &buf[..]);
 
+        if compressor_config.serialized_size() != size_of::<u8>() + config_size {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "the size of the compressor config does not match the compression scheme",
+            )
+            .into());
+        }
+
         let footer3_size = size_of::<FileFooter3>();
 
         buf.resize(footer3_size, 0);
-- 
2.43.0


From b2ec4fbb332f6f2b230ee8d8b9a4a5455b835c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:37 +0000
Subject: [PATCH 44/57] fix: refuse a file that does not start with the magic
 number

---
 ebi/src/encoder.rs            | 2 +-
 ebi/src/format.rs             | 4 ++++
 ebi/src/format/deserialize.rs | 5 +++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 4feb9c7..740ba6f 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -76,7 +76,7 @@ pub struct FileWriter<R: Read> {
 }
 
 impl<R: Read> FileWriter<R> {
-    const MAGIC_NUMBER: &'static [u8; 4] = b"EBI1";
+    const MAGIC_NUMBER: &'static [u8; 4] = FileHeader::MAGIC_NUMBER;
     pub fn new(input: R, compressor: CompressorConfig, chunk_option: ChunkOption) -> Self {
         let start_time = Instant::now();
         let chunk_footer = ChunkFooter {
diff --git a/ebi/src/format.rs b/ebi/src/format.rs
index f4b9ca3..ee3a1d5 100644
--- a/ebi/src/format.rs
+++ b/ebi/src/format.rs
@@ -151,6 +151,10 @@ pub struct FileHeader {
     pub version: [u16; 3],
 }
 
+impl FileHeader {
+    pub const MAGIC_NUMBER: &'static [u8; 4] = b"EBI1";
+}
+
 #[repr(C, packed(1))]
 pub struct FileConfig {
     pub field_type: FieldType,                 // = u8
diff --git a/ebi/src/format/deserialize.rs b/ebi/src/format/deserialize.rs
index 5554dd5..3dd98ab 100644
--- a/ebi/src/format/deserialize.rs
+++ b/ebi/src/format/deserialize.rs
@@ -101,6 +101,8 @@ impl_try_from_le_bytes_ext!(
 
 #[derive(Error, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 pub enum ConversionError {
+    #[error("Not an EBI file: the magic number does not match")]
+    MagicNumber,
     #[error("Failed to convert FieldType")]
     FieldType,
     #[error("Failed to convert CompressionScheme")]
@@ -124,6 +126,9 @@ impl TryFromLeBytes for FileHeader {
             bytes[buf_cursor + 2],
             bytes[buf_cursor + 3],
         ];
+        if magic_number != *FileHeader::MAGIC_NUMBER {
+            return Err(ConversionError::MagicNumber);
+        }
         buf_cursor += size_of::<[u8; 4]>();
 
         let config = FileConfig::try_from_le_bytes(&bytes[buf_cursor..])?;
-- 
2.43.0


From 3eb5d7e9e9bb584d8df806cf6b96b0a592723041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 45/57] fix: check a BUFF chunk's header against the chunk
 before using it

---
 ebi/src/decoder/chunk_reader/buff.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 180732f..4d0031f 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -7,7 +7,7 @@ mod min_max;
 mod sum;
 
 use core::slice;
-use std::{io::Read, iter};
+use std::{io::Read, iter, mem::size_of};
 
 use roaring::RoaringBitmap;
 
@@ -15,7 +15,7 @@ use crate::{
     decoder::{
         self,
         query::{default_materialize, Predicate, QueryExecutor, RangeValue},
-        FileMetadataLike, GeneralChunkHandle,
+        DecoderError, FileMetadataLike, GeneralChunkHandle,
     },
     time::{SegmentKind, SegmentedExecutionTimes},
 };
@@ -32,6 +32,26 @@ pub struct BUFFReader {
     decompressed: Option<Vec<f64>>,
 }
 
+/// Whether the chunk holds what its own header announces: the number of records and, for each of
+/// them, one byte in every full sub-column and the remaining bits in the last one.
+fn is_chunk_complete(chunk: &[u8], number_of_records: u64) -> bool {
+    const HEADER_SIZE: usize = 5 * size_of::<u32>();
+    if chunk.len() < HEADER_SIZE {
+        return false;
+    }
+    let read_u32 = |i: usize| {
+        let start = i * size_of::<u32>();
+        u32::from_le_bytes(chunk[start..start + size_of::<u32>()].try_into().unwrap()) as u64
+    };
+    let (n, bits) = (read_u32(2), read_u32(3));
+    let fractional_bits = read_u32(4);
+    // at most `u32::MAX` records of at most 64 bits: no overflow
+    n == number_of_records
+        && bits <= u64::BITS as u64
+        && fractional_bits <= u64::BITS as u64
+        && chunk.len() as u64 >= HEADER_SIZE as u64 + n * (bits / 8) + (n * (bits % 8)).div_ceil(8)
+}
+
 impl BUFFReader {
     pub fn new<T: FileMetadataLike, R: Read>(
         handle: &GeneralChunkHandle<T>,
@@ -44,6 +64,10 @@ impl BUFFReader {
         reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
+        if !is_chunk_complete(&chunk_in_memory, number_of_records) {
+            #[allow(clippy::useless_conversion)]
+            return Err(DecoderError::UnexpectedEndOfChunk.into());
+        }
         Ok(Self {
             chunk_size,
             number_of_records,
-- 
2.43.0


From 036f9010e64b1921aeada0126dde6c6d26a95ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:30 +0000
Subject: [PATCH 46/57] fix: read back the results of the UCR experiment

---
 experimenter/src/lib.rs  | 2 +-
 experimenter/src/main.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index c1b886c..9751367 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -102,7 +102,7 @@ pub struct UCR2018ResultForOneDataset {
     pub dataset_name: String,
     pub config: UCR2018Config,
     pub compression_config: CompressionConfig,
-    pub elapsed_time_nanos: Vec<Vec<u128>>,
+    pub elapsed_time_nanos: Vec<Vec<u64>>,
     pub execution_times: Vec<Vec<SerializableSegmentedExecutionTimes>>,
     pub accuracy: f64,
     pub compression_statistics: CompressStatistics,
diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 65dbb8e..0e157bd 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2356,7 +2356,8 @@ fn ucr2018_command(
                     let knn_result = decoder.knn1(&test_vector[..])?;
                     let elapsed_time_nano = start.elapsed().as_nanos();
 
-                    elapsed_time_nanos_for_one_test_vector.push(elapsed_time_nano);
+                    elapsed_time_nanos_for_one_test_vector
+                        .push(elapsed_time_nano.try_into().unwrap_or(u64::MAX));
                     segmented_execution_times_for_one_test_vector
                         .push(decoder.segmented_execution_times().into());
 
-- 
2.43.0


From 9ac70c0d786d60b56aa2ca4ff05b5b8febcd3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:30 +0000
Subject: [PATCH 47/57] fix: round UCR values with ten or more decimals by
 their scale

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 0e157bd..26d6b36 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2081,7 +2081,7 @@ pub struct LabelPixel {
     pub label: isize,
     pub pixels: Vec<f64>,
 }
-pub fn slurp_file(file: impl AsRef<Path>, prec: i32) -> Vec<LabelPixel> {
+pub fn slurp_file(file: impl AsRef<Path>, prec: i64) -> Vec<LabelPixel> {
     fn nan_to_zero(x: f64) -> f64 {
         if x.is_nan() {
             0.0
@@ -2215,7 +2215,7 @@ fn ucr2018_command(
             .to_string_lossy()
             .to_string();
         let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
-        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
         let test_vectors = test_data
             .iter()
             .map(|x| x.pixels.clone())
@@ -2251,8 +2251,8 @@ fn ucr2018_command(
             let train_file = dataset_entry.join(format!("{}_TRAIN.tsv", dataset_name));
             let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
 
-            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i32);
-            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i64);
+            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
             let train_vectors = train_data
                 .iter()
                 .flat_map(|x| x.pixels.clone())
-- 
2.43.0


From ae616293905393924feab3ca1bc5a2c300328f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:30 +0000
Subject: [PATCH 48/57] fix: skip files without an extension in the embedding
 experiment

---
 experimenter/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 26d6b36..c38cb5f 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2551,8 +2551,8 @@ fn embedding_command(
     let dataset_entries = entry_file_iter(input_dir.as_ref())?
         .filter(|entry| {
             let dataset_name = entry.file_stem().unwrap().to_string_lossy();
-            let ext = entry.as_path().extension().unwrap().to_string_lossy();
-            !datasets_exclude.contains(&dataset_name.as_ref()) && ext == "bin"
+            let is_binary = entry.extension().is_some_and(|ext| ext == "bin");
+            !datasets_exclude.contains(&dataset_name.as_ref()) && is_binary
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0


From e54f8239215f24f21216ede5eeeb9c68532713b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:30 +0000
Subject: [PATCH 49/57] fix: decompress an empty file in the embedding
 experiment

---
 experimenter/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index c38cb5f..eeb420f 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2682,10 +2682,8 @@ fn embedding_command(
                 );
                 decompression_segmented_execution_times
                     .push(decoder.segmented_execution_times().into());
-                decompression_result_string.push(format!(
-                    "{:?}",
-                    &decoder_output.into_writer().into_inner()[..5.min(encoded.len())]
-                ));
+                let decoded = decoder_output.into_writer().into_inner();
+                decompression_result_string.push(format!("{:?}", &decoded[..5.min(decoded.len())]));
             }
 
             let result = SimpleCompressionPerformanceForOneDataset {
-- 
2.43.0


From 1a55325ac457f253c87bea26ba6b917cb25463b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:30 +0000
Subject: [PATCH 50/57] fix: save the embedding results below the given output
 directory

---
 experimenter/src/main.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index eeb420f..0b5c6b7 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -592,16 +592,15 @@ fn main() -> anyhow::Result<()> {
 
     if let Commands::Embedding { output_dir } = &cli.command {
         let input_dir = Path::new(input);
-        let output_dir = output_dir.join("result").join("embedding");
+        let save_dir = output_dir.join("result").join("embedding");
         anyhow::ensure!(
             input_dir.is_dir(),
             "Input directory does not exist or not directory: {}",
             input_dir.display()
         );
 
-        std::fs::create_dir_all(&output_dir)?;
+        std::fs::create_dir_all(&save_dir)?;
 
-        let save_dir = input_dir.parent().unwrap().join("result").join("embedding");
         // Determine the next available directory name
         let mut dir_number = 0;
         let unique_output_dir = loop {
-- 
2.43.0


From 8d7cfdb5990d4de81211c811c28a9d9477347f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:06 +0000
Subject: [PATCH 51/57] fix: read back the statistics of a file without records

---
 experimenter/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 9751367..6b50d7c 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -165,13 +165,20 @@ pub struct MatrixResult {
     pub end_time: chrono::DateTime<chrono::Utc>,
 }
 
+/// JSON has no notation for the ratio of an empty file and writes it as null.
+fn deserialize_ratio<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    Ok(Option::deserialize(deserializer)?.unwrap_or(f64::INFINITY))
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct CompressStatistics {
     pub compression_elapsed_time_nano_secs: u64,
     pub uncompressed_size: u64,
     pub compressed_size: u64,
     pub compressed_size_chunk_only: u64,
+    #[serde(deserialize_with = "deserialize_ratio")]
     pub compression_ratio: f64,
+    #[serde(deserialize_with = "deserialize_ratio")]
     pub compression_ratio_chunk_only: f64,
 }
 
-- 
2.43.0


From db5422b059fc8802fd66c2104c1feaad2f00b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:24 +0000
Subject: [PATCH 52/57] fix: do not divide the average throughput by the number
 of runs again

---
 experimenter/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 6b50d7c..12f8aeb 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -293,7 +293,6 @@ impl AllOutput {
         let total_compression_throughput = dataset_to_output
             .values()
             .map(|output| {
-                let n = output.compress.len() as f64;
                 let elapsed_time = output
                     .compress
                     .iter()
@@ -304,7 +303,7 @@ impl AllOutput {
                     .iter()
                     .map(|c| c.command_specific.uncompressed_size as f64)
                     .sum::<f64>();
-                (uncompressed_size / elapsed_time) / n
+                uncompressed_size / elapsed_time
             })
             .sum::<f64>();
 
@@ -317,7 +316,6 @@ impl AllOutput {
         let total_decompression_throughput = dataset_to_output
             .values()
             .map(|output| {
-                let n = output.compress.len() as f64;
                 let elapsed_time = output
                     .materialize
                     .iter()
@@ -328,7 +326,7 @@ impl AllOutput {
                     .iter()
                     .map(|c| c.command_specific.uncompressed_size as f64)
                     .sum::<f64>();
-                (uncompressed_size / elapsed_time) / n
+                uncompressed_size / elapsed_time
             })
             .sum::<f64>();
 
-- 
2.43.0


From b944efb719505aff3f6da5c4549c1f02c207c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 53/57] fix: encode with Elf in builds with overflow checks

---
 ebi/src/compressor/elf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index a7eeab7..6798e07 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -111,7 +111,9 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
 
             if beta_star < 16 {
                 let e = (v_bits >> 52) & 0x7ff;
-                let g_alpha = elf::get_f_alpha(alpha) + e as u32 - 1023;
+                let g_alpha = elf::get_f_alpha(alpha)
+                    .wrapping_add(e as u32)
+                    .wrapping_sub(1023);
                 erase_bits = 52 - g_alpha as i32;
                 if erase_bits > 4 {
                     mask = u64::MAX << erase_bits;
@@ -201,7 +203,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -254,7 +256,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -263,7 +265,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From 872be105a90d187cd84729261a91a35443500080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:38 +0000
Subject: [PATCH 54/57] fix: record the times of plain and expression
 aggregates

Aggregation::compute left its timer untouched for a plain column, and the
reading done while the chunk readers of an expression were made got lost.
---
 ebi/src/api/decoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index e8924e1..4bb9d44 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -907,7 +907,9 @@ impl Aggregation {
     ) -> decoder::Result<AggregationResult> {
         if let Expr::Index(index) = &self.expr {
             // We can directly access the chunk reader using in-situ query execution if possible.
-            return self.kind.dispatch(&mut decoders[*index], bitmask);
+            let result = self.kind.dispatch(&mut decoders[*index], bitmask)?;
+            *timer += decoders[*index].segmented_execution_times();
+            return Ok(result);
         }
         Self::check_same_chunk_layout(decoders)?;
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
@@ -917,6 +919,9 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            for reader in &readers {
+                *timer += reader.segmented_execution_times();
+            }
             let computed_chunk = self.expr.compute_chunk(&mut readers, bitmask, timer)?;
             result.concat(self.kind.dispatch_on_vec(computed_chunk)?, self.kind)?;
         }
@@ -952,6 +957,9 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            for reader in &readers {
+                *timer += reader.segmented_execution_times();
+            }
             for (aggr_i, aggr) in aggregations.iter().enumerate() {
                 if computed[aggr_i] {
                     continue;
-- 
2.43.0


From f655c089c588ab3325e56acaded9951c04c69323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:38 +0000
Subject: [PATCH 55/57] fix: book the time of Sprintz sums as sum

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 99b204b..8eb3a24 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -290,7 +290,7 @@ fn sum(
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
-    let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
+    let sum_timer = timer.start_addition_measurement(SegmentKind::Sum);
     // The sum of 64-bit values may exceed 64 bits
     let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
@@ -316,7 +316,7 @@ fn sum(
             break;
         }
     }
-    comparison_timer.stop();
+    sum_timer.stop();
 
     Ok(sum as f64 / scale as f64)
 }
@@ -339,7 +339,7 @@ fn sum_without_bitmask(
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
-    let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
+    let sum_timer = timer.start_addition_measurement(SegmentKind::Sum);
     // The sum of 64-bit values may exceed 64 bits
     let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
@@ -353,7 +353,7 @@ fn sum_without_bitmask(
 
         sum += quantized as i128;
     }
-    comparison_timer.stop();
+    sum_timer.stop();
 
     Ok(sum as f64 / scale as f64)
 }
-- 
2.43.0


From 03531a3b63aa3c5ae602dbf1bd3f598ee712fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:17 +0000
Subject: [PATCH 56/57] fix: refuse matrix shapes whose size overflows

---
 ebi/src/api/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 4bb9d44..569306f 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -622,9 +622,12 @@ impl<R: Read + Seek> Decoder<R> {
         let (data_rows, data_columns) = data_matrix_shape;
 
         let is_matrix_shape_invalid = data_columns != target_rows;
+        // A size that overflows fits neither the records nor the target matrix.
+        let data_matrix_size = data_rows.checked_mul(data_columns).unwrap_or(0);
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            data_rows * data_columns == 0 || number_of_records % (data_rows * data_columns) != 0;
-        let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
+            data_matrix_size == 0 || number_of_records % data_matrix_size != 0;
+        let is_target_matrix_shape_invalid =
+            target_rows.checked_mul(target_columns) != Some(target_matrix.len());
         if is_matrix_shape_invalid
             || is_data_matrix_shape_aligned_to_number_of_records_invalid
             || is_target_matrix_shape_invalid
@@ -632,7 +635,7 @@ impl<R: Read + Seek> Decoder<R> {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
 
-        let batch_size = number_of_records / (data_rows * data_columns);
+        let batch_size = number_of_records / data_matrix_size;
 
         let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
         if batch_size == 0 {
-- 
2.43.0


From 63312cbc5c087381046767f59ab4d4025ee452f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:17 +0000
Subject: [PATCH 57/57] fix: report an input that ends unexpectedly

---
 ebi/src/encoder.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 740ba6f..c0c2258 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -282,12 +282,6 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
             Ok(n) => n_read += n,
             // An interrupted read is not an error and must be retried.
             Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
-            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
-                if n_read == 0 {
-                    return Err(e.into());
-                }
-                break;
-            }
             Err(e) => return Err(e.into()),
         }
     }
-- 
2.43.0

