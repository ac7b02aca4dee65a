From c1ded6f939cfdcf7d73569214423473ad88a1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 01/23] fix: write codes of 32 and more bits at any bit offset

put_bits shifted a 32-bit cache by 32 for whole words (overflow panic in checked builds)
and lost track of the offset for the 33..36-bit codes unsigned_code emits for values above 117 million.
---
 src/bits/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bits/mod.rs b/src/bits/mod.rs
index d30fbdd..4532c7f 100644
--- a/src/bits/mod.rs
+++ b/src/bits/mod.rs
@@ -34,6 +34,12 @@ impl<'a, W: WriteBytesExt> BitsIOWriter<'a, W> {
 
 impl<W: WriteBytesExt> BitsWriter for BitsIOWriter<'_, W> {
     fn put_bits(&mut self, x: u32, bits: u32) -> io::Result<()> {
+        if bits > 32 {
+            // x has only 32 significant bits, so the leading ones are zeros
+            self.put_bits(0, bits - 32)?;
+            return self.put_bits(x, 32);
+        }
+
         let mut new_bits = self.index_bits + bits;
 
         if new_bits < 32 {
@@ -41,9 +47,12 @@ impl<W: WriteBytesExt> BitsWriter for BitsIOWriter<'_, W> {
         } else {
             new_bits -= 32;
 
-            self.write_stream.write_u32::<LittleEndian>(
-                (self.write_cache << (bits - new_bits)) | (x >> new_bits),
-            )?;
+            let word = if bits - new_bits == 32 {
+                x // whole word, nothing is cached
+            } else {
+                (self.write_cache << (bits - new_bits)) | (x >> new_bits)
+            };
+            self.write_stream.write_u32::<LittleEndian>(word)?;
 
             self.write_cache = x;
         }
-- 
2.43.0


From dc947e832b99e4c46184c9d2ee60ecadaaac8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 02/23] fix: context arithmetic of high contrast images wraps
 instead of panicking

sum2 * 16 and 2 * sum_sq overflow u32 for large coefficients (they wrap in the reference),
and abs() of the coefficient -32768 overflows i16.
---
 src/encode/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..f06b670 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -79,7 +79,7 @@ pub fn square<T: num_traits::ops::wrapping::WrappingMul + Copy>(t: T) -> T::Outp
 }
 
 pub fn add_context(x: i16, w: i32, sum: &mut u32, sum2: &mut u32, count: &mut u32) {
-    let x = x.abs() as u32;
+    let x = i32::from(x).abs() as u32;
     *sum += x * w as u32;
     *sum2 += square(x.min(4096)) * w as u32;
     *count += w as u32;
@@ -192,7 +192,7 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        (sum2.wrapping_mul(16).wrapping_add(count / 2)) / count,
     )
 }
 
@@ -388,9 +388,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
-- 
2.43.0


From 9b9224447a45743a512df0bdc0b142b2b140464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 03/23] fix: decoding of malformed codes wraps instead of
 panicking

Codes outside 16 bits overflowed the sign mapping and the context moments.
---
 src/encode/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index f06b670..2382c01 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -47,9 +47,9 @@ pub fn interleaved_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) ->
 pub fn interleaved_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<i32> {
     let x = unsigned_decode(stream, pot)? as i32;
     if (x & 1) != 0 {
-        Ok((x + 1) / 2)
+        Ok(x.wrapping_add(1) / 2)
     } else {
-        Ok(-x / 2)
+        Ok(x.wrapping_neg() / 2)
     }
 }
 
@@ -70,7 +70,7 @@ pub fn signed_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result
     } else if stream.get_bits(1)? != 0 {
         Ok(x)
     } else {
-        Ok(-x)
+        Ok(x.wrapping_neg())
     }
 }
 
@@ -440,13 +440,14 @@ pub fn decode(
             }
             if run <= 0 {
                 if scheme == Encoder::Turbo {
-                    s = interleaved_decode(stream, 1)?;
+                    s = i32::from(interleaved_decode(stream, 1)? as i16);
                 } else {
                     if scheme == Encoder::Contextual {
                         context = unsafe { get_context(&image, x as i32, y as i32) };
                     }
                     let sum_sq = square(context.0);
-                    s = get_s(&mut *stream, sum_sq, context, is_chroma)?;
+                    // coefficients have 16 bits, only malformed data has larger codes
+                    s = i32::from(get_s(&mut *stream, sum_sq, context, is_chroma)? as i16);
 
                     if scheme == Encoder::Fast {
                         let t = s.abs() as u32;
-- 
2.43.0


From d0cf70004723e87addea929db428f3c816ffa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 04/23] fix: lifting wraps at 16 bits like the reference

The linear filter summed its neighbours in i16, and both filters added the prediction with
a trapping i16 addition: samples with a large range panicked in checked builds and, for linear,
differed from the reference in unchecked ones.
---
 src/lifting/cubic.rs  | 10 ++++++----
 src/lifting/linear.rs | 19 +++++++++++--------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/lifting/cubic.rs b/src/lifting/cubic.rs
index f6fc72b..3436cf8 100644
--- a/src/lifting/cubic.rs
+++ b/src/lifting/cubic.rs
@@ -45,7 +45,8 @@ unsafe fn horizontal_lifting_base(
     if column.len() > 3 * step {
         while x < column.len() - 3 * step {
             let c3 = *column.get_unchecked(3 * step + x);
-            *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c3) / divider) as i16;
+            let value = column.get_unchecked_mut(x);
+            *value = value.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
             c0 = c1;
             c1 = c2;
             c2 = c3;
@@ -53,7 +54,8 @@ unsafe fn horizontal_lifting_base(
         }
     }
     while x < column.len() {
-        *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c2) / divider) as i16;
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add((cubic(c0, c1, c2, c2) / divider) as i16);
         c0 = c1;
         c1 = c2;
         x += step * 2;
@@ -85,8 +87,8 @@ unsafe fn vertical_lifting_base(
             c2
         };
 
-        *chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x) +=
-            (cubic(c0, c1, c2, c3) / divider) as i16;
+        let value = chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x);
+        *value = value.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
         x += step;
     }
 }
diff --git a/src/lifting/linear.rs b/src/lifting/linear.rs
index da486ed..fcfa8db 100644
--- a/src/lifting/linear.rs
+++ b/src/lifting/linear.rs
@@ -31,15 +31,17 @@ unsafe fn horizontal_lifting_base(
 ) {
     let mut x = step * step_multiplier;
     while x < column.len() - step {
-        let a = *column.get_unchecked_mut(x - step);
-        let b = *column.get_unchecked_mut(x + step);
-        *column.get_unchecked_mut(x) += (a + b) / (divider * 2);
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let b = i32::from(*column.get_unchecked_mut(x + step));
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add(((a + b) / i32::from(divider * 2)) as i16);
         x += step * 2;
     }
 
     if x < column.len() {
-        *column.get_unchecked_mut(x) +=
-            (i32::from(*column.get_unchecked_mut(x - step)) / i32::from(divider)) as i16;
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add((a / i32::from(divider)) as i16);
     }
 }
 
@@ -67,14 +69,15 @@ unsafe fn vertical_lifting_base(
 
     let mut x = 0;
     while x < middle_value.len() {
-        let c1 = *left.get_unchecked(0).get_unchecked(x);
+        let c1 = i32::from(*left.get_unchecked(0).get_unchecked(x));
         let c2 = if let Some(right_value) = right.first() {
-            *right_value.get_unchecked(x)
+            i32::from(*right_value.get_unchecked(x))
         } else {
             c1
         };
 
-        *middle_value.get_unchecked_mut(x) += (c1 + c2) / divider;
+        let value = middle_value.get_unchecked_mut(x);
+        *value = value.wrapping_add(((c1 + c2) / i32::from(divider)) as i16);
 
         x += step;
     }
-- 
2.43.0


From 7cb54d95ff162015f68972e7c46da8b4d65f6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 05/23] fix: reject denominators that are not positive 16-bit
 values

A color program with denominator -1 or a multiple of 65536 made the inverse transform divide by
zero or overflow, and set_denominator checked the previous value instead of the new one.
---
 src/color_transform/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..41d5041 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -56,7 +56,7 @@ impl ChannelTransformBuilder {
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
         assert!(
-            self.denominator > 0,
+            denominator > 0,
             "Denominator should be positive integer"
         );
         self.denominator = denominator;
@@ -228,7 +228,7 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            if denominator <= 0 || denominator > std::i16::MAX as i32 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From 66ce93725b29bc04465e9a36ba645d2d69d62ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 06/23] fix: color transforms wrap at 16 bits instead of
 panicking

Large factors, and any factor on malformed decoded data, overflowed the i16 sums and products.
---
 src/color_transform/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 41d5041..42573c1 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -316,15 +316,18 @@ impl ColorTransformProgram {
             for channel_factor in &channel_transform.channel_factors {
                 if is_channel_transformed[channel_factor.src_channel] {
                     for i in 0..channel_size {
-                        aux[dest_base + i] += aux[channel_factor.src_channel * channel_size + i]
-                            * channel_factor.factor as i16;
+                        let term = aux[channel_factor.src_channel * channel_size + i]
+                            .wrapping_mul(channel_factor.factor as i16);
+                        aux[dest_base + i] = aux[dest_base + i].wrapping_add(term);
                     }
                 } else {
-                    let boosted_factor = channel_factor.factor as i16 * boost;
+                    let boosted_factor = (channel_factor.factor as i16).wrapping_mul(boost);
                     let layer = channel_layer(channel_factor.src_channel, channels, channel_size);
                     for i in 0..channel_size {
-                        aux[dest_base + i] +=
-                            image[layer + i * channels_in_index].into() * boosted_factor;
+                        let term = image[layer + i * channels_in_index]
+                            .into()
+                            .wrapping_mul(boosted_factor);
+                        aux[dest_base + i] = aux[dest_base + i].wrapping_add(term);
                     }
                 }
             }
@@ -332,7 +335,8 @@ impl ColorTransformProgram {
             let layer = channel_layer(channel_transform.dest_channel, channels, channel_size);
             for i in 0..channel_size {
                 aux[dest_base + i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] += image[layer + i * channels_in_index].into() * boost;
+                aux[dest_base + i] = aux[dest_base + i]
+                    .wrapping_add(image[layer + i * channels_in_index].into() * boost);
             }
 
             is_channel_transformed[channel_transform.dest_channel] = true;
@@ -399,14 +403,15 @@ impl ColorTransformProgram {
 
             for channel_factor in &channel_transform.channel_factors {
                 for i in 0..channel_size {
-                    transform_temp[i] += aux[channel_factor.src_channel * channel_size + i]
-                        * channel_factor.factor as i16;
+                    let term = aux[channel_factor.src_channel * channel_size + i]
+                        .wrapping_mul(channel_factor.factor as i16);
+                    transform_temp[i] = transform_temp[i].wrapping_add(term);
                 }
             }
 
             for i in 0..channel_size {
                 transform_temp[i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] -= transform_temp[i];
+                aux[dest_base + i] = aux[dest_base + i].wrapping_sub(transform_temp[i]);
             }
         }
 
-- 
2.43.0


From b059ba47652034d7dd78286ae17d0671ed89ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 07/23] fix: reject header parameters the format cannot
 represent

The builder accepted block_size 1 and zero layers, channels or chroma_scale; encoding such a
header underflowed, and compression divided by zero.
---
 src/header/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..3186c38 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,6 +19,11 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        if self.layers == 0 || self.channels == 0 || self.chroma_scale == 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Layers, channels and chroma scale must be positive",
+            )));
+        }
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
@@ -44,7 +49,7 @@ impl HeaderBuilder {
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
             chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From 4fa48117df94b85175ea0534caae567104576410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 08/23] fix: report overflow when there is no space left for
 blocks

chunks_mut(0) panicked when the output buffer ended right after the block sizes.
---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..f48b43b 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From 6bd8a2c0298930b264825b15a2f11855d2fadb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 09/23] fix: downsampled decoding of Turbo images

The Turbo encoder enables run-length coding by quality * step of the full image, the decoder
evaluated the same condition with the downsampled step and decoded garbage where they differ.
---
 src/compress/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index f48b43b..825a841 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -337,6 +337,7 @@ pub fn decompress_image_data(
         }
 
         let step_downsampled = step >> downsampling;
+        let downsampling_factor = (step / step_downsampled) as i32;
         let block_size_downsampled = step_downsampled << header.block_size;
 
         let aux_data_chunks = Image::from_slice(
@@ -367,6 +368,12 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    // Turbo chose its run coder by quality * step before downsampling
+                    let quality = if header.encoder == header::Encoder::Turbo {
+                        quality.saturating_mul(downsampling_factor).min(2048)
+                    } else {
+                        quality
+                    };
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From 1e2a6d4aac54fe8d0970f0406358720cf984eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 10/23] fix: downsampling beyond the coarsest step keeps the DC
 coefficient

No step was decoded at all, and the result was a black 1x1 image reported as complete.
---
 src/compress/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 825a841..09ab7b6 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -287,7 +287,8 @@ pub fn decompress_image_data(
     let downsampled_width = header.get_downsampled_width(downsampling);
     let downsampled_height = header.get_downsampled_height(downsampling);
 
-    while (step >> downsampling) >= 1 {
+    // the first step is always decoded, because it contains the DC coefficient
+    while has_dc || (step >> downsampling) >= 1 {
         let bs = step << header.block_size;
 
         let block_count_x = (width + bs - 1) / bs;
@@ -336,7 +337,7 @@ pub fn decompress_image_data(
             is_truncated = false;
         }
 
-        let step_downsampled = step >> downsampling;
+        let step_downsampled = (step >> downsampling).max(1);
         let downsampling_factor = (step / step_downsampled) as i32;
         let block_size_downsampled = step_downsampled << header.block_size;
 
-- 
2.43.0


From 43e80853ebb43d1bd5432a49570f4af6553a32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 11/23] fix: decode truncated data progressively

Data that ended inside the blocks of any step but the last requested one gave Underflow instead
of a partial image and the next point of interest, and data that ended right after a table of
block sizes returned its own length as next point of interest, so that fetching up to it never
made progress. Block lengths no encoder can produce still give Underflow.
---
 src/compress/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 09ab7b6..971cf81 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -300,11 +300,11 @@ pub fn decompress_image_data(
         let block_sizes_storage_size = block_count * std::mem::size_of::<u32>();
 
         if decompressed_size > buffer.len() {
-            return Err(DecompressError::Underflow);
+            break;
         }
         let (_, buffer_remainder) = buffer.split_at(decompressed_size);
 
-        if buffer_remainder.len() <= block_sizes_storage_size {
+        if buffer_remainder.len() < block_sizes_storage_size {
             break;
         }
 
@@ -335,6 +335,15 @@ pub fn decompress_image_data(
 
         if blocks_buffer.len() >= blocks_size_sum {
             is_truncated = false;
+        } else {
+            // Even escaped codes take less than 16 bytes per coefficient, so a block length
+            // above that is malformed, while other lengths just mean that the data is truncated
+            let max_block_size = (bs.min(width) * bs.min(height))
+                .saturating_add(1)
+                .saturating_mul(16);
+            if blocks_sizes.iter().any(|&size| size > max_block_size) {
+                return Err(DecompressError::Underflow);
+            }
         }
 
         let step_downsampled = (step >> downsampling).max(1);
-- 
2.43.0


From 8a70f55784e4030b6387be5148f44cda4cc8b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 12/23] fix: count the color program in the next point of
 interest

decompress_simple returned an offset relative to the data after the color program, which is
smaller than the offset in the data it was given.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..a064fbd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,12 +54,17 @@ pub fn decompress_simple(
     test: bool,
     mut buffer: &mut [u8],
 ) -> Result<usize, DecompressError> {
+    let original_len = data.len();
     let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
+    let service_len = original_len - data.len();
 
     let mut aux_data = vec![0i16; header.get_downsampled_image_size(downsampling)];
-    let next_point_of_interest =
+    let mut next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
+    if next_point_of_interest != 0 {
+        next_point_of_interest += service_len;
+    }
 
     color_transform.detransform_and_to_interleaved(
         &mut aux_data,
-- 
2.43.0


From 52cf32f9a0742c55a790638fba5b0a1b5f6fceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 13/23] fix: testing does not write to the output buffer

decompress_simple with test = true overwrote the image with zeros, and panicked without one.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a064fbd..9609522 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,6 +66,10 @@ pub fn decompress_simple(
         next_point_of_interest += service_len;
     }
 
+    if test {
+        return Ok(next_point_of_interest);
+    }
+
     color_transform.detransform_and_to_interleaved(
         &mut aux_data,
         &header,
-- 
2.43.0


From 89746d901c2fe2079c39ca308c87460834d354b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 14/23] fix: chunks of an image do not invalidate each other's
 pointers

Every chunk re-borrowed the whole image mutably, and indexing created a slice of all of it, which
is undefined behaviour while other chunks are alive (reported by Miri under both borrow models).
---
 src/processing/image.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/processing/image.rs b/src/processing/image.rs
index 94c2cf4..3be98d4 100644
--- a/src/processing/image.rs
+++ b/src/processing/image.rs
@@ -1,7 +1,6 @@
 use std::{
     marker::PhantomData,
     ops::{Index, IndexMut},
-    slice,
 };
 
 pub struct Image<'a, T> {
@@ -23,7 +22,9 @@ impl<'a, T> Image<'a, T> {
         let (width, height) = self.size;
 
         ImageChunkIteratorMut {
-            data: self.data,
+            data_ptr: self.data.as_mut_ptr(),
+            data_len: self.data.len(),
+            phantom_data: PhantomData,
             state: ImageChunkIteratorState {
                 chunk_size,
                 step,
@@ -81,11 +82,17 @@ impl ImageChunkIteratorState {
     }
 }
 
+// Chunks of one image exist at the same time, so all of them use the pointer taken once in
+// into_chunks_mut: borrowing the whole data again would invalidate the pointers of earlier chunks.
 pub struct ImageChunkIteratorMut<'a, T> {
-    data: &'a mut [T],
+    data_ptr: *mut T,
+    data_len: usize,
+    phantom_data: PhantomData<&'a mut [T]>,
     state: ImageChunkIteratorState,
 }
 
+unsafe impl<T: Send> Send for ImageChunkIteratorMut<'_, T> {}
+
 pub struct ImageChunkMut<'a, T> {
     data_ptr: *mut T,
     data_len: usize,
@@ -175,10 +182,9 @@ impl<T> Index<(usize, usize)> for ImageChunkMut<'_, T> {
             "Cross-channel indexing is not permitted!"
         );
 
-        unsafe {
-            let data = slice::from_raw_parts_mut(self.data_ptr, self.data_len);
-            &data[index]
-        }
+        assert!(index < self.data_len);
+
+        unsafe { &*self.data_ptr.add(index) }
     }
 }
 
@@ -195,10 +201,9 @@ impl<T> IndexMut<(usize, usize)> for ImageChunkMut<'_, T> {
             "Cross-channel indexing is not permitted!"
         );
 
-        unsafe {
-            let data = slice::from_raw_parts_mut(self.data_ptr, self.data_len);
-            &mut data[index]
-        }
+        assert!(index < self.data_len);
+
+        unsafe { &mut *self.data_ptr.add(index) }
     }
 }
 
@@ -209,8 +214,8 @@ impl<'a, T> Iterator for ImageChunkIteratorMut<'a, T> {
         self.state
             .next_chunk()
             .map(|(x_range, y_range, channel, channel_start)| ImageChunkMut {
-                data_ptr: self.data.as_mut_ptr(),
-                data_len: self.data.len(),
+                data_ptr: self.data_ptr,
+                data_len: self.data_len,
                 phantom_data: PhantomData,
                 image_width: self.state.width,
                 channel_size: self.state.width * self.state.height,
-- 
2.43.0


From 6f1f0f90f2018285631fbbc2994d53f207352fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 15/23] Add schedule hook behind --cfg gfwx_verif

---
 src/processing/maybe_parallel.rs | 38 ++++++++++++++++++++++++++++++++
 src/processing/mod.rs            |  5 +++++
 2 files changed, 43 insertions(+)

diff --git a/src/processing/maybe_parallel.rs b/src/processing/maybe_parallel.rs
index 22d6a89..a9cfcaa 100644
--- a/src/processing/maybe_parallel.rs
+++ b/src/processing/maybe_parallel.rs
@@ -1,6 +1,32 @@
 #[cfg(feature = "rayon")]
 use rayon::prelude::*;
 
+/// Calls back around every item of the loops below, only with `--cfg gfwx_verif`.
+/// Used to perturb and to record thread schedules.
+#[cfg(gfwx_verif)]
+pub mod verif_hook {
+    use std::sync::OnceLock;
+
+    static HOOK: OnceLock<fn(bool)> = OnceLock::new();
+
+    /// Sets the callback, its argument tells whether an item starts or ends.
+    pub fn set(hook: fn(bool)) {
+        let _ = HOOK.set(hook);
+    }
+
+    pub(super) fn around<R>(action: impl FnOnce() -> R) -> R {
+        let hook = HOOK.get();
+        if let Some(hook) = hook {
+            hook(true);
+        }
+        let result = action();
+        if let Some(hook) = hook {
+            hook(false);
+        }
+        result
+    }
+}
+
 #[cfg(feature = "rayon")]
 #[inline(always)]
 pub fn process_maybe_parallel_for_each<'a, T, I, A>(items: I, action: A, hint_do_parallel: bool)
@@ -9,6 +35,9 @@ where
     I: Iterator<Item = T> + Send,
     A: Fn(I::Item) + Sync + Send,
 {
+    #[cfg(gfwx_verif)]
+    let action = |item| verif_hook::around(|| action(item));
+
     if cfg!(not(feature = "adaptive_multithreading")) || hint_do_parallel {
         items.par_bridge().for_each(action);
     } else {
@@ -24,6 +53,9 @@ where
     I: Iterator<Item = T>,
     A: Fn(I::Item),
 {
+    #[cfg(gfwx_verif)]
+    let action = |item| verif_hook::around(|| action(item));
+
     items.for_each(action);
 }
 
@@ -40,6 +72,9 @@ where
     A: Fn(I::Item) -> R + Sync + Send,
     R: Send,
 {
+    #[cfg(gfwx_verif)]
+    let action = |item| verif_hook::around(|| action(item));
+
     if cfg!(not(feature = "adaptive_multithreading")) || hint_do_parallel {
         items.par_bridge().map(action).collect()
     } else {
@@ -60,5 +95,8 @@ where
     A: Fn(I::Item) -> R + Sync + Send,
     R: Send,
 {
+    #[cfg(gfwx_verif)]
+    let action = |item| verif_hook::around(|| action(item));
+
     items.map(action).collect()
 }
diff --git a/src/processing/mod.rs b/src/processing/mod.rs
index b809e37..82244c9 100644
--- a/src/processing/mod.rs
+++ b/src/processing/mod.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)]
+
 mod double_overlapping_chunks_iterator;
 mod maybe_parallel;
 mod overlapping_chunks_iterator;
@@ -16,3 +18,6 @@ pub use self::maybe_parallel::{
 };
 pub use self::overlapping_chunks_iterator::OverlappingChunksIterator;
 pub use self::variable_chunks_iterator::VariableChunksIterator;
+
+#[cfg(gfwx_verif)]
+pub use self::maybe_parallel::verif_hook;
-- 
2.43.0


From c2e89c6bc21c4d0ac09071f85d8f75cb6467bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 16/23] fix: cubic predictions are 16-bit samples like in the
 reference

---
 src/lifting/cubic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lifting/cubic.rs b/src/lifting/cubic.rs
index 3436cf8..8295eb7 100644
--- a/src/lifting/cubic.rs
+++ b/src/lifting/cubic.rs
@@ -175,5 +175,6 @@ pub fn cubic(c0: i16, c1: i16, c2: i16, c3: i16) -> i32 {
     let c2 = i32::from(c2);
     let c3 = i32::from(c3);
     let num = -c0 + 9 * (c1 + c2) - c3;
-    median(round_fraction(num, 16), c1, c2)
+    // the prediction is a 16-bit sample, too
+    median(i32::from(round_fraction(num, 16) as i16), c1, c2)
 }
-- 
2.43.0


From 50e35f1eb86a180f42e2b3f53ba59dcdb01ad029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 17/23] fix: color transform does not depend on the previous
 content of the buffer

---
 src/color_transform/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 42573c1..fa9ccf8 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -313,6 +313,12 @@ impl ColorTransformProgram {
         for channel_transform in &self.channel_transforms {
             let dest_base = channel_transform.dest_channel * channel_size;
 
+            if !is_channel_transformed[channel_transform.dest_channel] {
+                for value in &mut aux[dest_base..dest_base + channel_size] {
+                    *value = 0;
+                }
+            }
+
             for channel_factor in &channel_transform.channel_factors {
                 if is_channel_transformed[channel_factor.src_channel] {
                     for i in 0..channel_size {
-- 
2.43.0


From f3f0211fcb906c918c97e58dd771c502c9dcd00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 18/23] fix: quality of strongly downsampled images does not
 overflow

---
 src/compress/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 971cf81..21f50b4 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -110,12 +110,11 @@ fn unlift_and_dequantize(
                 i32::from(header.quality)
             };
 
-            quant::dequantize(
-                image,
-                quality << downsampling,
-                0,
-                i32::from(header::QUALITY_MAX) * i32::from(boost),
-            );
+            let max_quality = i32::from(header::QUALITY_MAX) * i32::from(boost);
+            // does not have to fit 32 bits
+            let quality = (i64::from(quality) << downsampling).min(i64::from(max_quality));
+
+            quant::dequantize(image, quality as i32, 0, max_quality);
 
             match header.filter {
                 header::Filter::Linear => lifting::unlift_linear(image),
-- 
2.43.0


From fcf5ccd981a2d7b27012474141e602cc2680b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 19/23] fix: the last flag of a channel decides whether it is
 chroma, like in encode

---
 src/color_transform/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index fa9ccf8..8385f6e 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -237,8 +237,8 @@ impl ColorTransformProgram {
 
             if channel_is_chroma != 0 {
                 channel_transform_builder.set_chroma();
-                is_chroma[dest_channel] = true;
             }
+            is_chroma[dest_channel] = channel_is_chroma != 0;
 
             color_transform_program.add_channel_transform(channel_transform_builder.build());
         }
-- 
2.43.0


From 9e9de4c751ce1fb9acb3bac342015ddeeab1f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 20/23] fix: downsampling by 64 and more acted as a small one

Shifting by the bits of usize or more panics in builds with overflow checks; in release builds -d 64 of
the decompress example gave the full image. Sizes have at most 30 bits, so larger values mean 30.
---
 src/compress/mod.rs | 2 ++
 src/header/mod.rs   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 21f50b4..94c77f5 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -35,6 +35,7 @@ pub fn decompress_aux_data(
     test: bool,
     mut aux_data: &mut [i16],
 ) -> Result<usize, DecompressError> {
+    let downsampling = downsampling.min(header::DOWNSAMPLING_MAX);
     let payload_next_point_of_interest =
         decompress_image_data(&mut aux_data, &header, data, downsampling, test, &is_chroma)?;
 
@@ -261,6 +262,7 @@ pub fn decompress_image_data(
     test: bool,
     is_chroma: &[bool],
 ) -> Result<usize, DecompressError> {
+    let downsampling = downsampling.min(header::DOWNSAMPLING_MAX);
     let chroma_quality = header.get_chroma_quality();
 
     let width = header.width as usize;
diff --git a/src/header/mod.rs b/src/header/mod.rs
index 5feb63b..340fec8 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -17,6 +17,8 @@ pub use self::builder::HeaderBuilder;
 pub const QUALITY_MAX: u16 = 1024;
 pub const BLOCK_DEFAULT: u8 = 7;
 pub const BLOCK_MAX: u8 = 30;
+// sizes have at most 30 bits, so nothing changes when downsampling any further
+pub const DOWNSAMPLING_MAX: usize = 30;
 
 const MAGIC: u32 = 'G' as u32 | (('F' as u32) << 8) | (('W' as u32) << 16) | (('X' as u32) << 24);
 
@@ -179,10 +181,12 @@ impl Header {
     }
 
     pub fn get_downsampled_width(&self, downsampling: usize) -> usize {
+        let downsampling = downsampling.min(DOWNSAMPLING_MAX);
         (self.width as usize + (1 << downsampling) - 1) >> downsampling
     }
 
     pub fn get_downsampled_height(&self, downsampling: usize) -> usize {
+        let downsampling = downsampling.min(DOWNSAMPLING_MAX);
         (self.height as usize + (1 << downsampling) - 1) >> downsampling
     }
 
-- 
2.43.0


From 3009c7b982ee0c68bcec1779ebb4734c89118bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 21/23] fix: indexing a chunk beyond the end of a row reached
 positions of other chunks

---
 src/processing/image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/processing/image.rs b/src/processing/image.rs
index 3be98d4..3244743 100644
--- a/src/processing/image.rs
+++ b/src/processing/image.rs
@@ -171,6 +171,11 @@ impl<T> Index<(usize, usize)> for ImageChunkMut<'_, T> {
     type Output = T;
 
     fn index(&self, (y, x): (usize, usize)) -> &Self::Output {
+        // a position behind the end of a row would be one that another chunk may write
+        assert!(
+            x < self.image_width && y < self.channel_size / self.image_width,
+            "Indexing outside of the image is not permitted!"
+        );
         let index = self.channel_start + y * self.image_width + x;
 
         assert!(
-- 
2.43.0


From 0715503d6f8332314dff008541698904b5a0ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 22/23] fix: lifting rows of different lengths accessed memory
 outside of them

---
 src/lifting/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lifting/mod.rs b/src/lifting/mod.rs
index afa35db..05e93c3 100644
--- a/src/lifting/mod.rs
+++ b/src/lifting/mod.rs
@@ -15,6 +15,8 @@ fn lift(
     horizontal_lift: unsafe fn(&mut [i16], usize),
     vertical_lift: unsafe fn(&mut [&mut [i16]], usize),
 ) {
+    assert_rectangular(image);
+
     let mut step = 1;
     let hint_do_parallel = get_hint_do_parallel(&image, config_factor);
 
@@ -41,6 +43,8 @@ fn unlift(
     horizontal_unlift: unsafe fn(&mut [i16], usize),
     vertical_unlift: unsafe fn(&mut [&mut [i16]], usize),
 ) {
+    assert_rectangular(image);
+
     let hint_do_parallel = get_hint_do_parallel(&image, config_factor);
 
     let mut step = 1;
@@ -65,6 +69,14 @@ fn unlift(
     }
 }
 
+// vertical lifting indexes all rows unchecked
+fn assert_rectangular(image: &[&mut [i16]]) {
+    assert!(
+        image.iter().all(|row| row.len() == image[0].len()),
+        "Rows of the image have different lengths"
+    );
+}
+
 fn get_hint_do_parallel(image: &[&mut [i16]], config_factor: usize) -> bool {
     image.len() * image[0].len() > config_factor
 }
-- 
2.43.0


From 88e402d9dbe6282d08cab85a5bfe1e85a61a2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 23/23] fix: encoding or decoding blocks outside of the
 auxiliary data accessed memory outside of it

---
 src/encode/mod.rs       |  4 ++++
 src/processing/image.rs | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index 2382c01..7382f29 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -238,6 +238,8 @@ pub fn encode(
     has_dc: bool,
     is_chroma: bool,
 ) -> io::Result<()> {
+    image.assert_accessible();
+
     let step = image.step as i32;
     let x_range = (image.x_range.0 as i32, image.x_range.1 as i32);
     let y_range = (image.y_range.0 as i32, image.y_range.1 as i32);
@@ -408,6 +410,8 @@ pub fn decode(
     has_dc: bool,
     is_chroma: bool,
 ) -> io::Result<()> {
+    image.assert_accessible();
+
     let step = image.step as i32;
     let x_range = (image.x_range.0 as i32, image.x_range.1 as i32);
     let y_range = (image.y_range.0 as i32, image.y_range.1 as i32);
diff --git a/src/processing/image.rs b/src/processing/image.rs
index 3244743..cfc9330 100644
--- a/src/processing/image.rs
+++ b/src/processing/image.rs
@@ -140,6 +140,23 @@ impl<T> ImageChunkMut<'_, T> {
         &mut *self.data_ptr.add(index)
     }
 
+    /// Panics unless positions of the step inside of the ranges can be accessed unchecked
+    pub(crate) fn assert_accessible(&self) {
+        assert!(
+            self.step.is_power_of_two() && self.step <= 1 << 29,
+            "Step of an image chunk has to be a power of two"
+        );
+        assert!(
+            self.x_range.0 <= self.x_range.1
+                && self.x_range.1 <= self.image_width
+                && self.y_range.0 <= self.y_range.1
+                && self.y_range.1 <= self.channel_size / self.image_width.max(1)
+                && self.channel_size <= self.data_len
+                && self.channel_start <= self.data_len - self.channel_size,
+            "Image chunk is outside of the image data"
+        );
+    }
+
     fn is_writeable_zone(&self, y: usize, x: usize) -> bool {
         if y == self.y_range.0 && x == self.x_range.0 {
             return true;
-- 
2.43.0

