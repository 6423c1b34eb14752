From a641d2485aec30d6fcc5dd2cd991acccd0236c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 01/32] verif hook: re-export private modules under
 cfg(adhoc_verif)

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9625ce4..84a762b 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,3 +90,15 @@ mod math;
 
 pub use codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
 pub use std::io::SeekFrom;
+
+/// Re-exports of the crate's private modules for the verification harness.
+/// Only compiled with `RUSTFLAGS="--cfg adhoc_verif"`.
+#[cfg(adhoc_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::collections::{
+        BitStream, BitVec, CircularStack, FixedRingBuffer, InsertDirection, LinkedList, LruCache,
+        NibbleList, Ptr, CAPPED_MAX, CAPPED_MIN, NULL,
+    };
+    pub use crate::math::{noise, parabola, signal, compute_mse};
+}
-- 
2.43.0


From a194867fc688eea004736cf9bb974094e633480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 02/32] fix: a write that spills into the next chunk no longer
 keeps stale bits there

---
 src/collections/bitstream.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..4153748 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,10 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //the spilled bits start at bit 0 of the next chunk, so whatever was there is replaced
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From 7334f9f7db9fef170cf2efd7804326e2205b5116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 03/32] fix: rice coding of i16::MIN and of exponent 15
 overflowed

---
 src/collections/bitstream.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 4153748..c8f436f 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -280,8 +280,10 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        // i16::MIN and exponent 15 don't fit in an i16
+        let magnitude = entropy.unsigned_abs();
+        let mut quotient = magnitude >> exponent;
+        let remainder = magnitude & ((1u16 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -319,10 +321,9 @@ impl BitStream {
         //write sign bit
         let sign_bit = self.read_bit() as i16;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0u32;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -332,7 +333,7 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -343,12 +344,16 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient = quotient.wrapping_add(zero_bit_pos as u32);
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as u32;
+        let magnitude = (quotient << exponent).wrapping_add(remainder) as i16;
+        if sign_bit == 1 {
+            magnitude.wrapping_neg()
+        } else {
+            magnitude
+        }
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From a8dcdd41d237dc708080d683eabe95e63ac427b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 04/32] fix: residuals outside 16 bits were clamped, which
 corrupted the rest of the stream

---
 src/codec/adhoc/frame.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..ac255d0 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -240,9 +240,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //the decoder wraps back, so nothing is lost when the difference exceeds 16 bits
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -277,9 +276,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //the decoder wraps back, so nothing is lost when the difference exceeds 16 bits
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -326,10 +324,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the encoder's wrapping_sub
+                        let current = entropy.wrapping_add(predicted);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -353,10 +349,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the encoder's wrapping_sub
+                        let current = entropy.wrapping_add(predicted);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -386,7 +380,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
-- 
2.43.0


From f8567b329d891b1cf81ebb66b4532438477c9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 05/32] fix: encoding fewer than three samples per channel
 first panicked

---
 src/codec/adhoc/frame.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index ac255d0..7bb7111 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -207,14 +207,18 @@ impl FrameCodec {
 
                 // write first three samples into the stream
                 // and also record then in the history queue
-                for k in 0..3 {
+                let num_samples_raw = pcm.len().min(3);
+                for k in 0..num_samples_raw {
                     let samp = pcm[k];
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let divisor_exp = Self::compute_optimal_divisor_exponent(
+                    sample_history,
+                    &pcm[num_samples_raw..],
+                );
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +233,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm[num_samples_raw..].iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -248,7 +252,10 @@ impl FrameCodec {
                     sample_history.push(current);
                 }
                 // println!("MAX ENTROPY={}", max_entropy);
-                self.state = CodecState::Encoding;
+                // prediction needs three samples, so a shorter frame leaves the next one to start over
+                if num_samples_raw == 3 {
+                    self.state = CodecState::Encoding;
+                }
             }
             CodecState::Encoding => {
                 let divisor_exp = Self::compute_optimal_divisor_exponent(&sample_history, &pcm[..]);
@@ -301,7 +308,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
@@ -333,7 +340,9 @@ impl FrameCodec {
                         samples_read += 1;
                     }
 
-                    self.state = CodecState::Decoding;
+                    if num_samples_pre_read == 3 {
+                        self.state = CodecState::Decoding;
+                    }
                     samples_read
                 }
                 CodecState::Decoding => {
-- 
2.43.0


From 903ca6fa5fdc3bb09146da5b8fc2898338a9476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 06/32] fix: encode lost samples beyond 65535 per channel in
 one call

---
 src/codec/adhoc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..5f14c25 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -215,6 +215,13 @@ impl AdhocCodec {
 
     fn encode(&mut self, interleaved_pcm: &[f32]) {
         let num_channels = self.stream.info().expect("info not set").channels as usize;
+        //a frame header stores the frame's size in 16 bits
+        for block in interleaved_pcm.chunks(num_channels * u16::MAX as usize) {
+            self.encode_block(block, num_channels);
+        }
+    }
+
+    fn encode_block(&mut self, interleaved_pcm: &[f32], num_channels: usize) {
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
-- 
2.43.0


From 4f477f6d5c790475bc22d7d401514247ddf65ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 07/32] fix: encoding nothing stored empty frames, which end
 decoding early

---
 src/codec/adhoc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 5f14c25..4b1191b 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -223,6 +223,10 @@ impl AdhocCodec {
 
     fn encode_block(&mut self, interleaved_pcm: &[f32], num_channels: usize) {
         let num_chunks = interleaved_pcm.len() / num_channels;
+        //an empty frame holds nothing, and decode(..) takes a run of them for the end of the stream
+        if num_chunks == 0 {
+            return;
+        }
         let inv_scale = self.inv_scale;
 
         //controls the 'strength'/'influence' of dithering
-- 
2.43.0


From 2e4eccd74d8df056bef49017131899c91c6ca619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 08/32] fix: encode reported samples that it had not encoded

---
 src/codec/adhoc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4b1191b..20b7e4d 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -332,7 +332,9 @@ impl Streamable for AdhocCodec {
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
         self.encode(samples);
 
-        Some(samples.len())
+        //samples that don't fill up every channel aren't encoded
+        let num_channels = self.info().channels();
+        Some((samples.len() / num_channels) * num_channels)
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From 414a51ff07e01390c47ff220041492dcb1209fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 09/32] fix: decode scaled samples of the caller's buffer that
 it had not written

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 20b7e4d..fa5f494 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -311,7 +311,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[0..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From a9df02efb042a9929ec7acb5a98a6bd927115245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 10/32] fix: seeking past the end of an adhoc stream panicked

---
 src/codec/adhoc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index fa5f494..7c46f5f 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -390,9 +390,14 @@ impl Streamable for AdhocCodec {
 
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
-                let start_header = frame_header_list
-                    .get(start_header_index)
-                    .expect("start frame failed to fetch");
+                let start_header = match frame_header_list.get(start_header_index) {
+                    Some(header) => header,
+                    None => {
+                        //past the end, there is nothing left to decode
+                        frame_header_list.set_cursor(start_header_index as u32);
+                        return;
+                    }
+                };
 
                 //make sure cursor in bitstream is set properly
                 stream.set_bit_cursor(start_header.bit_cursor as u128);
-- 
2.43.0


From 65c563dd1684beca4a0a3be98da41b384e011171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 11/32] fix: adhoc seek positions were inexact, and overflowed
 for large offsets

---
 src/codec/adhoc.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 7c46f5f..d640efb 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -345,7 +345,6 @@ impl Streamable for AdhocCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let info = self.stream.info().expect("info not initalized");
         let channels = info.channels as u64;
-        let frequency_in_millis = info.sample_rate as f32 / 1000.0;
 
         self.init();
 
@@ -363,8 +362,8 @@ impl Streamable for AdhocCodec {
 
         match dt {
             SeekFrom::Start(dt) => {
-                let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset = (info.sample_rate as u64).saturating_mul(dt) / 1000;
+                let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
-- 
2.43.0


From cbf790ecfb0ade7a67773d02553a907ff90a7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 12/32] fix: NibbleList::push after clear mixed in the old
 nibble

---
 src/collections/nibble_list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..c364368 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -31,12 +31,11 @@ impl NibbleList {
 
     pub fn push(&mut self, val: u8) {
         let block_idx = self.nibble_count as usize / 2;
-        let nibble_idx = self.nibble_count % 2;
         if block_idx >= self.data.len() {
             self.data.push(0);
         }
-        self.data[block_idx] |= val << 4 * (nibble_idx);
         self.nibble_count += 1;
+        self.set(self.len() - 1, val);
     }
 
     pub fn get(&self, idx: usize) -> u8 {
-- 
2.43.0


From 3b91e45b6540f5d07910060aceea5922a63e78be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 13/32] fix: re-encoding into a used codec kept the old
 stream's remaining frames

---
 src/codec/adhoc/frame.rs       | 25 ++++++++++++-------------
 src/collections/bitvec.rs      |  5 +++++
 src/collections/nibble_list.rs |  5 +++++
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 7bb7111..dee33c9 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -95,19 +95,18 @@ impl FrameHeaders {
         let header_cursor = self.header_cursor as usize;
         let is_init = is_init as u64;
 
-        if header_cursor >= self.divisor_exp_list.len() {
-            self.divisor_exp_list.push(exponent);
-            self.frame_size_list.push(num_samples);
-            self.bit_cursor_list.push(bit_cursor as u64);
-            self.is_init_frame_list.push(is_init);
-            self.stack_history_list.push(stack_history);
-        } else {
-            self.divisor_exp_list.set(header_cursor, exponent);
-            self.is_init_frame_list.set(header_cursor, is_init);
-            self.frame_size_list[header_cursor] = num_samples;
-            self.bit_cursor_list[header_cursor] = bit_cursor as u64;
-            self.stack_history_list[header_cursor] = stack_history;
-        }
+        //a frame that is written over invalidates all frames after it
+        self.divisor_exp_list.truncate(header_cursor);
+        self.frame_size_list.truncate(header_cursor);
+        self.bit_cursor_list.truncate(header_cursor);
+        self.is_init_frame_list.truncate(header_cursor);
+        self.stack_history_list.truncate(header_cursor);
+
+        self.divisor_exp_list.push(exponent);
+        self.frame_size_list.push(num_samples);
+        self.bit_cursor_list.push(bit_cursor as u64);
+        self.is_init_frame_list.push(is_init);
+        self.stack_history_list.push(stack_history);
 
         self.header_cursor += 1;
     }
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..9c411aa 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,11 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    /// keeps the first `len` bits, does nothing when there aren't more
+    pub fn truncate(&mut self, len: usize) {
+        self.bit_cursor = self.bit_cursor.min(len as u128);
+    }
+
     /// # Description
     /// return number of bits written to vector
     pub fn len(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index c364368..e897b48 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -61,6 +61,11 @@ impl NibbleList {
         self.nibble_count = 0;
     }
 
+    /// keeps the first `len` nibbles, does nothing when there aren't more
+    pub fn truncate(&mut self, len: usize) {
+        self.nibble_count = self.nibble_count.min(len as u32);
+    }
+
     pub fn iter<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
         (0..self.len()).map(move |idx| self.get(idx))
     }
-- 
2.43.0


From 7712e9099e0ebeef3cc58850d68e7273737c2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 14/32] fix: filesize_upperbound of AdhocCodec was below the
 actual size

---
 src/codec/adhoc.rs       | 8 ++++----
 src/codec/adhoc/frame.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index d640efb..dd73ada 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -104,12 +104,12 @@ impl AdhocCodec {
                 compression_level_bits 
         */
         let audio_stream_header =         
-            //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            //number of bits AudioStream need to store info, and the byte that says that it's there
+            mem::size_of::<StreamInfo>() as u64 * 8 + 8;
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
-          //streams internal cursor + capacity 
-          128*2 ;
+          //streams internal cursor + capacity, and the length of its vector
+          128*2 + 64;
 
 
         let audio_stream_bits = audio_stream_header + bitstream;
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index dee33c9..3079320 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -44,8 +44,8 @@ impl FrameHeaders {
         let len = self.len() as u64;
 
         //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //written out, the length is a u64
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From 457c586a5f3340e187623357166fbd21728181c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 15/32] fix: loading a corrupt adhoc file panicked, or made
 decoding panic

---
 src/codec/adhoc.rs       | 12 +++++++++++-
 src/codec/adhoc/frame.rs | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index dd73ada..9b62480 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -194,8 +194,18 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                //with_compression_level(..) allows 0-10, and a wav file has at most i16::MAX channels
+                let is_valid = slim.compression_level <= 10
+                    && (1..=i16::MAX as u32).contains(&info.channels)
+                    && slim.frame_header_list.is_consistent(
+                        info.channels as usize,
+                        slim.stream.capacity_upperbound(),
+                    );
+                if is_valid == false {
+                    return None;
+                }
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 3079320..f63d752 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -128,6 +128,24 @@ impl FrameHeaders {
         })
     }
 
+    /// # Description
+    /// checks headers that come from a file: all lists have to have the same length, there has to be
+    /// a frame for every channel and every frame has to start within the stream
+    pub fn is_consistent(&self, channels: usize, stream_len_in_bits: usize) -> bool {
+        let len = self.len();
+        len % channels == 0
+            && len <= self.divisor_exp_list.capacity() / 4
+            && len == self.is_init_frame_list.len()
+            && len <= self.is_init_frame_list.capacity()
+            && len == self.frame_size_list.len()
+            && len == self.bit_cursor_list.len()
+            && len == self.stack_history_list.len()
+            && self
+                .bit_cursor_list
+                .iter()
+                .all(|&bit_cursor| bit_cursor <= stream_len_in_bits as u64)
+    }
+
     pub fn set_cursor(&mut self, idx: u32) {
         self.header_cursor = idx;
     }
-- 
2.43.0


From 401f73fe21a5708deb143fc1c676008dd423ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 16/32] fix: saving a wav lost part of the header when a write
 was short

---
 src/codec/wav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..1ea14d2 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -124,7 +124,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")
-- 
2.43.0


From a58aa2e1e168f2ca66672eb62117feb5ca86043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 17/32] fix: wav files shorter than 256 bytes failed to load,
 and a data header at the end panicked

---
 src/codec/wav.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 1ea14d2..8e3f29f 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -135,10 +135,12 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
-
+        //short files end before that
+        let mut header_binary = Vec::with_capacity(256);
         wav_res
-            .read_exact(&mut header_binary)
+            .by_ref()
+            .take(256)
+            .read_to_end(&mut header_binary)
             .map_err(|_| "failed to read header bytes")?;
 
         let mut header_slice = &header_binary[..];
@@ -153,6 +155,7 @@ impl WavCodec {
                 let number = [b'd', b'a', b't', b'a'];
                 window == &number
             })
+            .filter(|(data_start, _)| data_start + 8 <= header_binary.len())
             .ok_or("data region not found")?;
 
         header_slice
-- 
2.43.0


From e5dcf3c6168befd9258c4b9b37ad814f1ff8782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 18/32] fix: a wav without channels was accepted, which made
 decode panic

---
 src/codec/wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 8e3f29f..adbb567 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -185,6 +185,9 @@ impl WavCodec {
         if header.audio_format != 1 {
             return Err("formats other than PCM liner isn't supported");
         }
+        if header.num_channels < 1 {
+            return Err("invalid number of channels");
+        }
 
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
-- 
2.43.0


From 1c0b71a9f5e5b927eceabf7b62f39608c5f7ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 19/32] fix: chunks after a wav's data chunk were taken for
 audio

---
 src/codec/wav.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index adbb567..5ea1d24 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -201,6 +201,11 @@ impl WavCodec {
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
+        //chunks after the data chunk aren't audio (streamed files leave the size at 0)
+        if header.file_size_data > 0 {
+            pcm.truncate(header.file_size_data as usize);
+        }
+
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
             let len = pcm.len();
-- 
2.43.0


From ba16ed95ace37eaaa554adc1d7a2bd15546b35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 20/32] fix: decoding an empty wav read bytes as i16 through a
 misaligned pointer

---
 src/codec/wav.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5ea1d24..a2db260 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -236,13 +236,9 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
-    #[allow(dead_code)]
-    fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
-        unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
+    fn get_sample(pcm: &[u8], sample_index: usize) -> i16 {
+        let byte_index = sample_index << 1;
+        i16::from_le_bytes([pcm[byte_index + 0], pcm[byte_index + 1]])
     }
 
     /// writes a sample at current cursor positions (will offset the cursor)
@@ -290,13 +286,12 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let sample_i16 = Self::get_sample(&self.pcm, *cursor as usize);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From 04b60165fc1518d16999cfc35fcc5e2b88de2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 21/32] fix: seeking in a wav panicked when empty, stopped
 inside of a block, and took End for Start

---
 src/codec/wav.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index a2db260..fdfb828 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -302,30 +302,27 @@ impl Streamable for WavCodec {
     }
 
     fn seek(&mut self, dt: SeekFrom) {
-        let sample_rate = self.info.sample_rate as f32;
+        let sample_rate = self.info.sample_rate as i64;
         let num_channels = self.info.channels() as i64;
-        let num_samples = self.num_samples() as i64;
+        //seeking stops in front of a sample block or at the end, never inside of a block
+        let num_samples = (self.num_samples() as i64 / num_channels) * num_channels;
 
-        let sample_rate_in_milliseconds = sample_rate / 1000.0;
+        let offset_in_samples = |dt: i64| {
+            (sample_rate.saturating_mul(dt) / 1000).saturating_mul(num_channels)
+        };
 
-        match dt {
+        let (block_index, sample_offset) = match dt {
             SeekFrom::Current(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
                 let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                (block_index, offset_in_samples(dt))
             }
-            SeekFrom::Start(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::End(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-        }
+            SeekFrom::Start(dt) => (0, offset_in_samples(dt.min(i64::MAX as u64) as i64)),
+            SeekFrom::End(dt) => (num_samples, offset_in_samples(dt)),
+        };
+
+        self.short_cursor = block_index
+            .saturating_add(sample_offset)
+            .clamp(0, num_samples) as u64;
     }
 }
 
-- 
2.43.0


From 545808d7af61f263adf615dc78e2f8c6aa51433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 22/32] fix: CircularStack::is_empty told whether it's full

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From 40329ddcaf2e9ae41703ae9ab9f88b398feef828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 23/32] fix: the cli cut off dots in file names, so that
 outputs overwrote each other

---
 src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..eb6823d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,10 +120,10 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     let mut file_dest = PathBuf::from(output_dir);
     // println!("dest = {:?}",file_dest);
 
+    //the stem may have dots of its own, which set_extension(..) would cut off
+    let mut file_name = file_name.to_os_string();
+    file_name.push(".adhoc");
     file_dest.push(file_name);
-
-    // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
     
     // println!("final dest = {:?}",file_dest);
 
@@ -145,8 +145,9 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     }
 
     let mut file_dest = PathBuf::from(output_dir);
+    let mut file_name = file_name.to_os_string();
+    file_name.push(".wav");
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From d3305bfad3bbea08cb5550aedd4247d312fd394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 24/32] verif hook: also export the linked list's iterator

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84a762b..d58723b 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,8 +97,8 @@ pub use std::io::SeekFrom;
 #[doc(hidden)]
 pub mod verif {
     pub use crate::collections::{
-        BitStream, BitVec, CircularStack, FixedRingBuffer, InsertDirection, LinkedList, LruCache,
-        NibbleList, Ptr, CAPPED_MAX, CAPPED_MIN, NULL,
+        BitStream, BitVec, CircularStack, FixedRingBuffer, InsertDirection, LinkedList,
+        LinkedListIterator, LruCache, NibbleList, Ptr, CAPPED_MAX, CAPPED_MIN, NULL,
     };
-    pub use crate::math::{noise, parabola, signal, compute_mse};
+    pub use crate::math::{noise, signal};
 }
-- 
2.43.0


From d5c400eb79a330a37c0353e4d247d03a128aa6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 25/32] fix: wav chunks before fmt, or the text "data" inside
 of a chunk, were misread

---
 src/codec/wav.rs | 74 ++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index fdfb828..6a2e16c 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -73,12 +73,6 @@ impl RawWavHeader {
             slice::from_raw_parts(bytes, mem::size_of::<RawWavHeader>())
         }
     }
-    pub fn as_bytes_mut(&mut self) -> &mut [u8] {
-        unsafe {
-            let bytes: *mut u8 = mem::transmute(self);
-            slice::from_raw_parts_mut(bytes, mem::size_of::<RawWavHeader>())
-        }
-    }
 }
 
 /// # Description
@@ -143,42 +137,42 @@ impl WavCodec {
             .read_to_end(&mut header_binary)
             .map_err(|_| "failed to read header bytes")?;
 
-        let mut header_slice = &header_binary[..];
         let mut header = RawWavHeader::default();
+        let u16_at = |at: usize| u16::from_le_bytes([header_binary[at], header_binary[at + 1]]);
+        let u32_at = |at: usize| u32::from(u16_at(at)) | u32::from(u16_at(at + 2)) << 16;
+
+        //the chunks are in any order, and others than 'fmt ' and 'data' are skipped
+        let mut chunk_start = 12;
+        let mut is_fmt_found = false;
+        let data_start = loop {
+            if chunk_start + 8 > header_binary.len() {
+                return Err("data region not found");
+            }
+            let chunk_len = u32_at(chunk_start + 4);
+            match &header_binary[chunk_start..chunk_start + 4] {
+                b"data" => {
+                    header.file_size_data = chunk_len;
+                    break chunk_start;
+                }
+                b"fmt " if chunk_start + 24 <= header_binary.len() => {
+                    header.audio_format = u16_at(chunk_start + 8) as i16;
+                    header.num_channels = u16_at(chunk_start + 10) as i16;
+                    header.frequncy = u32_at(chunk_start + 12) as i32;
+                    header.bits_per_sample = u16_at(chunk_start + 22) as i16;
+                    is_fmt_found = true;
+                }
+                _ => {}
+            }
+            //chunks are padded to an even length
+            chunk_start = chunk_start
+                .saturating_add(8)
+                .saturating_add(chunk_len as usize)
+                .saturating_add(chunk_len as usize % 2);
+        };
 
-        // println!("buffer size ={}", wav_binary.len());
-
-        let (data_start, _) = header_binary
-            .windows(4)
-            .enumerate()
-            .find(|(_, window)| {
-                let number = [b'd', b'a', b't', b'a'];
-                window == &number
-            })
-            .filter(|(data_start, _)| data_start + 8 <= header_binary.len())
-            .ok_or("data region not found")?;
-
-        header_slice
-            .clone()
-            .read(header.as_bytes_mut())
-            .map_err(|_| "header failed to read")?;
-
-        header
-            .data_header
-            .iter_mut()
-            .zip(header_slice[data_start..data_start + 4].iter())
-            .for_each(|(data_header_byte, &b)| {
-                *data_header_byte = b;
-            });
-
-        header_slice = &header_slice[data_start + 4..];
-        header.file_size_data = u32::from_le_bytes([
-            header_slice[0],
-            header_slice[1],
-            header_slice[2],
-            header_slice[3],
-        ]);
-
+        if is_fmt_found == false {
+            return Err("format chunk not found");
+        }
         if header.bits_per_sample != 16 && header.bits_per_sample != 8 {
             return Err("invalid bits per sample, either 16 or 8 bits per sample is supported ");
         }
-- 
2.43.0


From 161b34bcbd658bca8ce0651268d3bf0c778b4454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 26/32] fix: half a sample at the end of a wav shifted the
 samples encoded behind it

---
 src/codec/wav.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 6a2e16c..e61199a 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -200,6 +200,11 @@ impl WavCodec {
             pcm.truncate(header.file_size_data as usize);
         }
 
+        if header.bits_per_sample == 16 {
+            //half of a sample isn't one, and would shift the samples encoded behind it
+            pcm.truncate(pcm.len() / 2 * 2);
+        }
+
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
             let len = pcm.len();
-- 
2.43.0


From aa45cd506adc4211484b565442f205d22ab3da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 27/32] fix: the cli lost the audio of files with more than
 1024 channels

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index eb6823d..ffc98e0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -112,7 +112,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    //decode(..) returns nothing if a sample of each channel doesn't fit
+    let mut buffer = vec![0.0; parsed_wav.info().channels().max(1024)];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -138,7 +139,7 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    let mut buffer = vec![0.0; src_adhoc.info().channels().max(1024)];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From 984f421bc77f06806bf23a11ed54bc995df704ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 28/32] fix: a run of empty frames, as in files of earlier
 versions, ended decoding

---
 src/codec/adhoc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 9b62480..0b4f987 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -291,10 +291,13 @@ impl AdhocCodec {
             //decode and load buffers if empty
             while attempts < MAX_DECODE_ATTEMPTS && is_buffers_empty(channel_list) {
                 //decode more data
+                let mut is_frame_missing = false;
                 for channel_idx in 0..num_channels {
-                    channel_list[channel_idx].decode_frame(stream, block_info);
+                    let frame = channel_list[channel_idx].decode_frame(stream, block_info);
+                    is_frame_missing |= frame.is_none();
                 }
-                attempts += 1;
+                //files of earlier versions may have any number of empty frames in between
+                attempts += is_frame_missing as usize;
             }
             attempts
         };
-- 
2.43.0


From 384b812889867c1cc9fac333a0c8ebf20e2ea4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 29/32] fix: a reused codec saved remains of the old stream and
 its size estimate wasn't tight

---
 src/codec/adhoc.rs             | 3 +++
 src/collections/bitstream.rs   | 8 ++++++++
 src/collections/bitvec.rs      | 1 +
 src/collections/nibble_list.rs | 3 ++-
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0b4f987..a2140c2 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -249,6 +249,9 @@ impl AdhocCodec {
         let deinterleaved_channel = &mut self.deinterleaved_channel;
         let seq = &mut self.seq;
 
+        //what is written over isn't part of the stream anymore
+        stream.truncate();
+
         deinterleaved_channel.resize(num_chunks, 0.0);
 
         //de-interleave pcm by channel
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index c8f436f..080ecff 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -236,6 +236,14 @@ impl BitStream {
         }
     }
 
+    /// # Description
+    /// forgets everything to the right of the `bit_cursor`, but keeps the memory
+    pub fn truncate(&mut self) {
+        let num_chunks = self.chunk_index() + 1;
+        self.binary.truncate(num_chunks);
+        self.capacity = self.capacity.min(self.bit_cursor);
+    }
+
     pub fn zero(&mut self) {
         self.binary.iter_mut().for_each(|e| *e = 0);
     }
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 9c411aa..9331233 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -24,6 +24,7 @@ impl BitVec {
     /// keeps the first `len` bits, does nothing when there aren't more
     pub fn truncate(&mut self, len: usize) {
         self.bit_cursor = self.bit_cursor.min(len as u128);
+        self.binary.truncate((self.len() + 63) / 64);
     }
 
     /// # Description
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index e897b48..01e258a 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -26,7 +26,7 @@ impl NibbleList {
     /// # Description
     /// returns total number of bits allocated in buffer
     pub fn capacity(&self) ->usize{
-        self.data.capacity() * 8
+        self.data.len() * 8
     }
 
     pub fn push(&mut self, val: u8) {
@@ -64,6 +64,7 @@ impl NibbleList {
     /// keeps the first `len` nibbles, does nothing when there aren't more
     pub fn truncate(&mut self, len: usize) {
         self.nibble_count = self.nibble_count.min(len as u32);
+        self.data.truncate((self.len() + 1) / 2);
     }
 
     pub fn iter<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
-- 
2.43.0


From 50deb0b3ef49169b80bf92a69f8af2899d8e62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 30/32] hook: compute_mse and the parabola for verification

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d58723b..9dceebf 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,5 +100,5 @@ pub mod verif {
         BitStream, BitVec, CircularStack, FixedRingBuffer, InsertDirection, LinkedList,
         LinkedListIterator, LruCache, NibbleList, Ptr, CAPPED_MAX, CAPPED_MIN, NULL,
     };
-    pub use crate::math::{noise, signal};
+    pub use crate::math::{compute_mse, noise, parabola, signal};
 }
-- 
2.43.0


From 163c42988483350e596ebfc2a03ee1e25e4d4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 31/32] fix: packed lists gave stale values behind their end

---
 src/collections/bitvec.rs      | 4 ++--
 src/collections/nibble_list.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 9331233..666f688 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -65,7 +65,7 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        if chunk_idx >= self.binary.len() || idx >= self.bit_cursor {
             return 0;
         }
 
@@ -79,7 +79,7 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        if chunk_idx >= self.binary.len() || idx >= self.bit_cursor {
             return;
         }
 
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 01e258a..951228d 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -41,7 +41,7 @@ impl NibbleList {
     pub fn get(&self, idx: usize) -> u8 {
         let block_idx = idx / 2;
         let nibble_idx = idx % 2;
-        if block_idx >= self.data.len() {
+        if block_idx >= self.data.len() || idx >= self.len() {
             return 0;
         }
         (self.data[block_idx] >> 4 * (nibble_idx)) & 0x0f
@@ -50,7 +50,7 @@ impl NibbleList {
     pub fn set(&mut self, idx: usize, val: u8) {
         let block_idx = idx / 2;
         let nibble_idx = (idx % 2) as u8;
-        if block_idx >= self.data.len() {
+        if block_idx >= self.data.len() || idx >= self.len() {
             return;
         }
         self.data[block_idx] &= (0x0f * nibble_idx) | (0xf0 * (1 - nibble_idx));
-- 
2.43.0


From f6898f37f09197ac5321fb681c1acd3dd79352d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 32/32] fix: saving a wav stream of 2048 or more channels or
 with a high byte rate overflowed

---
 src/codec/wav.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index e61199a..9623d25 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -113,8 +113,11 @@ impl WavCodec {
         header.audio_format = 1;
         header.num_channels = self.info.channels as i16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        //the fields are unsigned, and don't overflow sooner than the values they hold
+        header.block_align = (header.num_channels as u16).wrapping_mul(2) as i16;
+        header.bytes_per_sec = header
+            .frequncy
+            .wrapping_mul(header.block_align as u16 as i32);
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-- 
2.43.0

