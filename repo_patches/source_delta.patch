From 3fd7fa23c761c350045dcfb46d93b09582170478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 01/26] fix: BC2/BC3 color blocks always use the four color
 palette

---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..e4ecf57 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_color: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if four_color || q0 > q1 {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+// color block of BC2 & BC3, which always uses the four color palette
+#[inline]
+pub(crate) fn decode_bc1_block_four_color(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true);
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..d6736cb 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_block_four_color;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_block_four_color(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..cf427f0 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_block_four_color;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_block_four_color(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From d6dacddb808175f3bf0d8bff286904771dd62d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 02/26] fix: ATC alternate mode subtracts a quarter of the
 second endpoint, clamped at 0

---
 src/atc.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..3f3ac4f 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -2,7 +2,6 @@
 use crate::bcn::bc3::decode_bc3_alpha;
 use crate::color::color;
 use crate::macros::block_decoder;
-use core::cmp::max;
 use core::result::Result;
 
 #[inline]
@@ -58,18 +57,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = colors[8].saturating_sub(colors[12] / 4);
+        colors[5] = colors[9].saturating_sub(colors[13] / 4);
+        colors[6] = colors[10].saturating_sub(colors[14] / 4);
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 31df784103abbe46ba360ce5fa447af98ab9a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 03/26] fix: BC6H mode with 16-bit endpoints keeps its second
 endpoint (mask overflow)

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..b25fd6f 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = ((1u32 << mi.endpoint_bits) - 1) as u16;
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From 099999566b4f471e0c0294ea475bf985f650b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 04/26] fix: BC6H unquantization of maximal and of signed
 endpoints

---
 src/bcn/bc6.rs | 54 ++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index b25fd6f..c4dddc0 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -272,30 +272,33 @@ static S_BC6H_MODE_INFO: [Bc6hModeInfo; 32] = [
     },
 ];
 
-fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
-    let max_value: u16 = 1 << (_endpoint_bits - 1);
-
+fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> i32 {
     if _signed {
+        let _value = _value as i16 as i32;
+
         if _endpoint_bits >= 16 {
             return _value;
         }
 
-        let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        let max_value: i32 = (1 << (_endpoint_bits - 1)) - 1;
+        let sign: bool = _value < 0;
+        let _value = _value.abs();
 
-        let unq: u16;
+        let unq: i32;
 
         if 0 == _value {
             unq = 0;
-        } else if _value >= max_value - 1 {
+        } else if _value >= max_value {
             unq = 0x7fff;
         } else {
-            unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
+            unq = ((_value << 15) + 0x4000) >> (_endpoint_bits - 1);
         }
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if sign { -unq } else { unq };
     }
 
+    let _value = _value as i32;
+
     if _endpoint_bits >= 15 {
         return _value;
     }
@@ -304,19 +307,19 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
-        return u16::MAX;
+    if _value == (1 << _endpoint_bits) - 1 {
+        return 0xffff;
     }
 
-    ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16
+    ((_value << 15) + 0x4000) >> (_endpoint_bits - 1)
 }
 
-fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
+fn finish_unquantize(_value: i32, _signed: bool) -> u16 {
     if _signed {
-        let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        let sign: u16 = if _value < 0 { 0x8000 } else { 0 };
+        ((_value.abs() * 31) >> 5) as u16 | sign
     } else {
-        ((_value as u32 * 31) >> 6) as u16
+        ((_value * 31) >> 6) as u16
     }
 }
 
@@ -689,11 +692,9 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
     });
 
-    (0..num_subsets * 2).for_each(|ii| {
-        ep_r[ii] = unquantize(ep_r[ii], signed, mi.endpoint_bits);
-        ep_g[ii] = unquantize(ep_g[ii], signed, mi.endpoint_bits);
-        ep_b[ii] = unquantize(ep_b[ii], signed, mi.endpoint_bits);
-    });
+    let ep_r = ep_r.map(|v| unquantize(v, signed, mi.endpoint_bits));
+    let ep_g = ep_g.map(|v| unquantize(v, signed, mi.endpoint_bits));
+    let ep_b = ep_b.map(|v| unquantize(v, signed, mi.endpoint_bits));
 
     let partition_set_idx = if mi.partition_bits != 0 {
         bit.read(5) as usize
@@ -723,24 +724,21 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let num = index_bits - anchor as usize;
             let index = bit.read(num) as usize;
 
-            let fc = factors[index] as u32;
+            let fc = factors[index] as i32;
             let fca = 64 - fc;
             let fcb = fc;
 
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                (ep_r[subset_index] * fca + ep_r[subset_index + 1] * fcb + 32) >> 6,
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                (ep_g[subset_index] * fca + ep_g[subset_index + 1] * fcb + 32) >> 6,
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                (ep_b[subset_index] * fca + ep_b[subset_index + 1] * fcb + 32) >> 6,
                 signed,
             );
 
-- 
2.43.0


From 29771134dfbac52eb0dd295edb654787b023b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 05/26] fix: BC6H reserved modes decode to opaque black

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index c4dddc0..cb1efb4 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -353,7 +353,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         mode |= (bit.read(3) << 2) as u8;
 
         if 0 == S_BC6H_MODE_INFO[mode as usize].endpoint_bits {
-            outbuf[0..16].fill(0);
+            outbuf[0..16].fill(color(0, 0, 0, 255));
             return;
         }
 
-- 
2.43.0


From c6f5d601c3d150c38a5dc54c7e2bc179232c08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 06/26] fix: EAC texel indices are stored big-endian

---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..b10a5f7 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
-- 
2.43.0


From 4c74fd86eeda9bd92f19a9c602535120a22da14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 07/26] fix: signed EAC base codeword -128 is treated as -127

---
 src/etc/eac.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b10a5f7..4f0c7ad 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -26,7 +26,8 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
 
 #[inline]
 pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
-    let base: i32 = (data[0] as i8) as i32;
+    // -128 is to be treated as -127
+    let base: i32 = ((data[0] as i8) as i32).max(-127);
     let mut multiplier: i32 = (data[1] >> 1 & 0x78) as i32;
     if multiplier == 0 {
         multiplier = 1;
-- 
2.43.0


From 4ef0f406311d9dd93703ad5726eecbe72fef19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 08/26] fix: image sizes whose products overflow are rejected,
 empty images decode at once

---
 src/macros.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..18411b7 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -7,15 +7,22 @@ macro_rules! block_decoder{
                 const BLOCK_WIDTH: usize = $block_width;
                 const BLOCK_HEIGHT: usize = $block_height;
                 const BLOCK_SIZE: usize = BLOCK_WIDTH * BLOCK_HEIGHT;
+                if width == 0 || height == 0 {
+                    return Ok(());
+                }
                 let num_blocks_x: usize = width.div_ceil(BLOCK_WIDTH);
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                // the products may not fit into usize, no buffer is large enough in that case
+                let data_size = num_blocks_x
+                    .checked_mul(num_blocks_y)
+                    .and_then(|n| n.checked_mul($raw_block_size));
+                if data_size.map_or(true, |n| data.len() < n) {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                if width.checked_mul(height).map_or(true, |n| image.len() < n) {
                     return Err("Image buffer is too small!");
                 }
 
-- 
2.43.0


From cc9cd70d64be9b7436bab22ce0764be4ff334e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 09/26] fix: decode_astc rejects block sizes it cannot decode
 and overflowing image sizes

---
 src/astc.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..7b8444f 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1779,24 +1779,38 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width < 2 || block_height < 2 {
+        return Err("Block size is too small!");
+    }
+
+    if block_width
+        .checked_mul(block_height)
+        .map_or(true, |n| n > 144)
+    {
+        return Err("Block size is too big!");
+    }
+
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    // the products may not fit into usize, no buffer is large enough in that case
+    let data_size = num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|n| n.checked_mul(16));
+    if data_size.map_or(true, |n| data.len() < n) {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
-    if image.len() < expected_image_size {
+    if width.checked_mul(height).map_or(true, |n| image.len() < n) {
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
-        return Err("Block size is too big!");
-    }
-
     (0..num_blocks_y).for_each(|by| {
         (0..num_blocks_x).for_each(|bx| {
             decode_astc_block(&data[data_offset..], block_width, block_height, &mut buffer);
-- 
2.43.0


From 4214ec0ca4df8b37e2b82aea24a427c537413f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 10/26] fix: PVRTC size checks cover empty and overflowing
 images and need 8 bytes per block

---
 src/pvrtc.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..14cde98 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -379,16 +379,21 @@ pub fn decode_pvrtc(
     extern crate alloc;
     use alloc::vec::Vec;
 
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
+
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
-        return Err("The data buffer is too small!");
-    }
-    if image.len() < width * height {
+    // the products may not fit into usize, no buffer is large enough in that case
+    let num_blocks: usize = match num_blocks_x.checked_mul(num_blocks_y) {
+        Some(n) if n <= data.len() / 8 => n,
+        _ => return Err("The data buffer is too small!"),
+    };
+    if width.checked_mul(height).map_or(true, |n| image.len() < n) {
         return Err("The image buffer is too small!");
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
-- 
2.43.0


From 583e6de9382a7062a11b10062e1b9c38eb9bbae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:29 +0000
Subject: [PATCH 11/26] fix: the crate builds and decodes PVRTC without the
 alloc feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 32 ++++++++++++++++++--------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 14cde98..2d8dc4e 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -458,25 +458,28 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
-    let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
-        num_blocks_x
-    } else {
-        num_blocks_y
-    };
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
+
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
+    let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    // the products may not fit into usize, no buffer is large enough in that case
+    if num_blocks_x
+        .checked_mul(num_blocks_y)
+        .map_or(true, |n| n > data.len() / 8)
+    {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if width.checked_mul(height).map_or(true, |n| image.len() < n) {
         return Err("The image buffer is too small!");
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
@@ -525,9 +528,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From fa5fdca2940c41964edfb9273dc9b1a230edf934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:20 +0000
Subject: [PATCH 12/26] fix: BC3 alpha and BC4 channel decoding touch only the
 16 texels of the block

---
 src/bcn/bc3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index cf427f0..d94b9ee 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,12 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
-    outbuf.iter_mut().for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+    outbuf[..16].iter_mut().for_each(|p| {
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
-- 
2.43.0


From 510e3cf8d30dee56f9e5dc2cd068bb922f2a9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 13/26] fix: sign-extend ASTC HDR direct mode deltas past 16
 bits

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 7b8444f..5855ae7 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -844,31 +844,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 |= !0x7f;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 |= !0x7f;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 |= !0x3f;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 |= !0x3f;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 |= !0x1f;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 |= !0x1f;
             }
         }
     }
-- 
2.43.0


From caa0aa64523602c6748a8f61938934c18b28b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 14/26] fix: ASTC blocks with an illegal encoding decode to the
 error colour

---
 src/astc.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 5855ae7..c36d926 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+/// returns false if the block is not a legal encoding
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,13 +669,20 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
-
     block_data.endpoint_value_num = 0;
 
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
 
+    // the endpoint values need at least the bits of the smallest range
+    let remain_bits = match 128usize.checked_sub(config_bits + weight_bits as usize) {
+        Some(n) if n >= (block_data.endpoint_value_num * 13).div_ceil(5) => n,
+        _ => return false,
+    };
+    if block_data.endpoint_value_num > 18 {
+        return false;
+    }
+
     let mut endpoint_bits: usize;
     for i in 0..CEM_TABLE_A.len() {
         match CEM_TABLE_A[i] {
@@ -686,6 +703,7 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
             break;
         }
     }
+    true
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1779,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From 3f371dd0de2d2e1770f70a4a80042ad38085d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 15/26] fix: ASTC void-extent blocks with reserved bits or
 empty extents are errors

---
 src/astc.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index c36d926..0a1ef0f 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1758,10 +1758,20 @@ fn applicate_color(data: &mut BlockData, outbuf: &mut [u32]) {
     }
 }
 
+/// void-extent blocks need their reserved bits set and non-empty extents (or none, all ones)
+#[inline]
+fn void_extent_is_legal(buf: &[u8]) -> bool {
+    let extents = getbits64(buf, 12, 52);
+    let [s0, s1, t0, t1] = [0, 13, 26, 39].map(|i| extents >> i & 0x1fff);
+    buf[1] & 0xc == 0xc && (extents == 0xf_ffff_ffff_ffff || (s0 < s1 && t0 < t1))
+}
+
 #[inline]
 pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, outbuf: &mut [u32]) {
     if buf[0] == 0xfc && (buf[1] & 1) == 1 {
-        let c: u32 = if buf[1] & 2 != 0 {
+        let c: u32 = if !void_extent_is_legal(buf) {
+            color(255, 0, 255, 255)
+        } else if buf[1] & 2 != 0 {
             color(
                 f16ptr_to_u8(&buf[8..]),
                 f16ptr_to_u8(&buf[10..]),
-- 
2.43.0


From d1ad858764dca0f5724221e9bb874b631ec24e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:53 +0000
Subject: [PATCH 16/26] fix: the crunch bit reader stays inside its section and
 reads zeros after its end

---
 src/crunch/crn_symbol_codec.rs | 60 ++++++++++------------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66edf4d..b5fed9b 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -4,10 +4,7 @@ use super::crn_utils::*;
 
 #[allow(non_camel_case_types)]
 pub struct symbol_codec<'slice> {
-    pub p_decode_buf: &'slice [u8],
     pub p_decode_buf_next: &'slice [u8],
-    pub p_decode_buf_end: *const u8,
-    pub decode_buf_size: u32,
     pub bit_buf: u32,
     pub bit_count: i32,
 }
@@ -15,10 +12,7 @@ pub struct symbol_codec<'slice> {
 impl Default for symbol_codec<'_> {
     fn default() -> Self {
         symbol_codec {
-            p_decode_buf: &[0; 0],
             p_decode_buf_next: &[0; 0],
-            p_decode_buf_end: core::ptr::null(),
-            decode_buf_size: 0,
             bit_buf: 0,
             bit_count: 0,
         }
@@ -27,13 +21,10 @@ impl Default for symbol_codec<'_> {
 
 impl<'slice> symbol_codec<'slice> {
     pub fn start_decoding(&mut self, p_buf: &'slice [u8], buf_size: u32) -> bool {
-        if buf_size == 0 {
+        if buf_size == 0 || buf_size as usize > p_buf.len() {
             return false;
         }
-        self.p_decode_buf = p_buf;
-        self.p_decode_buf_next = p_buf;
-        self.decode_buf_size = buf_size;
-        self.p_decode_buf_end = (&p_buf[(buf_size - 1) as usize]) as *const u8;
+        self.p_decode_buf_next = &p_buf[..buf_size as usize];
         self.get_bits_init();
         true
     }
@@ -175,35 +166,13 @@ impl<'slice> symbol_codec<'slice> {
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-                let mut c0: u32 = 0;
-                let mut c1: u32 = 0;
-                let mut p = self.p_decode_buf_next;
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c0 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c1 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                self.p_decode_buf_next = p;
+                let c0: u32 = self.next_byte();
+                let c1: u32 = self.next_byte();
                 self.bit_count += 16;
                 let c: u32 = (c0 << 8) | c1;
                 self.bit_buf |= c << (32 - self.bit_count);
             } else {
-                let c: u32;
-                if (&(self.p_decode_buf_next[0]) as *const u8) <= self.p_decode_buf_end {
-                    c = self.p_decode_buf_next[0] as u32;
-                    if (&(self.p_decode_buf_next[0]) as *const u8) < self.p_decode_buf_end {
-                        self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                    }
-                } else {
-                    c = 0
-                };
+                let c: u32 = self.next_byte();
                 self.bit_count += 8;
                 self.bit_buf |= c << (32 - self.bit_count);
             }
@@ -248,18 +217,23 @@ impl<'slice> symbol_codec<'slice> {
         self.bit_count = 0;
     }
 
+    // the bits after the end of the buffer are zeros
+    fn next_byte(&mut self) -> u32 {
+        match self.p_decode_buf_next.split_first() {
+            Some((&c, rest)) => {
+                self.p_decode_buf_next = rest;
+                c as u32
+            }
+            None => 0,
+        }
+    }
+
     fn get_bits(&mut self, num_bits: u32) -> Result<u32, bool> {
         if num_bits > 32 {
             return Err(false);
         }
         while self.bit_count < num_bits as i32 {
-            let mut c: u32 = 0;
-            if self.p_decode_buf_next[0] as *const u8 <= self.p_decode_buf_end {
-                c = self.p_decode_buf_next[0] as u32;
-                if (self.p_decode_buf_next[0] as *const u8) < self.p_decode_buf_end {
-                    self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                }
-            }
+            let c: u32 = self.next_byte();
             self.bit_count += 8;
             if self.bit_count > BIT_BUF_SIZE as i32 {
                 return Err(false);
-- 
2.43.0


From 6c4f914ae0564977bab95f197154ae992fc6e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:53 +0000
Subject: [PATCH 17/26] fix: crunch headers are read only from inside the file

---
 src/crunch/crn_decomp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crunch/crn_decomp.rs b/src/crunch/crn_decomp.rs
index ed5649a..d604ace 100644
--- a/src/crunch/crn_decomp.rs
+++ b/src/crunch/crn_decomp.rs
@@ -120,9 +120,10 @@ impl CrnHeader {
     pub const MIN_SIZE: u32 = 74;
 
     pub fn crnd_get_header(&mut self, p_data: &[u8], data_size: u32) -> bool {
-        if data_size < CrnHeader::MIN_SIZE {
+        if data_size < CrnHeader::MIN_SIZE || data_size as usize > p_data.len() {
             return false;
         }
+        let p_data = &p_data[..data_size as usize];
         *self = CrnHeader::default();
         self.sig.assign_from_buffer(&p_data[0..]);
         self.header_size.assign_from_buffer(&p_data[2..]);
@@ -146,8 +147,12 @@ impl CrnHeader {
         self.tables_ofs.assign_from_buffer(&p_data[67..]);
         self.level_ofs = alloc::vec![];
         for i in 0..self.levels.cast_to_uint() as usize {
+            let p_level_ofs = match p_data.get(70 + (i * 4)..74 + (i * 4)) {
+                Some(s) => s,
+                None => return false,
+            };
             self.level_ofs.push(CrnPackedUint { buf: [0, 0, 0, 0] });
-            self.level_ofs[i].assign_from_buffer(&p_data[70 + (i * 4)..]);
+            self.level_ofs[i].assign_from_buffer(p_level_ofs);
         }
         if self.sig.cast_to_uint() as u16 != CRNSIG_VALUE {
             return false;
-- 
2.43.0


From 6fab4fa3d56e2dc4b074e320bed4755a56b65eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:53 +0000
Subject: [PATCH 18/26] fix: crunch texture info does not accept the format
 count as a format

---
 src/crnlib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/crnlib.rs b/src/crnlib.rs
index 68addb2..2ea1a89 100644
--- a/src/crnlib.rs
+++ b/src/crnlib.rs
@@ -116,8 +116,6 @@ impl CrnTextureInfo {
             13 => CrnFormat::Etc1s,
             14 => CrnFormat::Etc2as,
 
-            15 => CrnFormat::Total,
-
             _ => CrnFormat::Invalid,
         };
         if self.format == CrnFormat::Invalid {
-- 
2.43.0


From 5ad8a813c90833b80d394bafe6a39b820baf1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 19/26] fix: crunch sections and levels outside the file are
 errors

---
 src/crunch/crn_unpacker.rs      | 17 ++++++++++-------
 src/crunch/crn_utils.rs         |  6 ++++++
 src/unitycrunch/crn_unpacker.rs | 22 +++++++++++++---------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..0021351 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -64,7 +64,7 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -139,7 +139,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +191,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -273,7 +273,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +310,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -390,7 +390,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get_mut(level_index as usize) {
+            Some(ofs) => ofs.cast_to_uint(),
+            None => return Err("Level index is out of range."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -399,7 +402,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            section(self.p_data, cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
diff --git a/src/crunch/crn_utils.rs b/src/crunch/crn_utils.rs
index 4ba3c77..1bc0651 100644
--- a/src/crunch/crn_utils.rs
+++ b/src/crunch/crn_utils.rs
@@ -24,3 +24,9 @@ pub fn limit(x: &mut u32, n: u32) {
     let msk: i32 = v >> 31;
     *x = (((*x as i32) & msk) | (v & !msk)) as u32;
 }
+
+// Returns the part of the file which starts at ofs, it is empty if ofs is outside of the file.
+#[inline]
+pub fn section(data: &[u8], ofs: u32) -> &[u8] {
+    data.get(ofs as usize..).unwrap_or(&[])
+}
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..03c00b2 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -3,6 +3,7 @@ use crate::crunch::crn_consts::*;
 use crate::crunch::crn_decomp::CrnHeader;
 use crate::crunch::crn_static_huffman_data_model::*;
 use crate::crunch::crn_symbol_codec::symbol_codec;
+use crate::crunch::crn_utils::section;
 use crate::macros::*;
 extern crate alloc;
 
@@ -71,7 +72,7 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -164,7 +165,7 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -239,7 +240,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -299,7 +300,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -332,7 +333,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -383,7 +384,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -457,7 +458,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -527,7 +528,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get_mut(level_index as usize) {
+            Some(ofs) => ofs.cast_to_uint(),
+            None => return Err("Level index is out of range."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -536,7 +540,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            section(self.p_data, cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
-- 
2.43.0


From c4681a5c17acbccf66588a9eb1c2029b1f82bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 20/26] fix: crunch Huffman models without symbols are errors

---
 src/crunch/crn_static_huffman_data_model.rs | 4 ++++
 src/crunch/crn_symbol_codec.rs              | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/crunch/crn_static_huffman_data_model.rs b/src/crunch/crn_static_huffman_data_model.rs
index eb7f05d..088de19 100644
--- a/src/crunch/crn_static_huffman_data_model.rs
+++ b/src/crunch/crn_static_huffman_data_model.rs
@@ -70,6 +70,10 @@ impl DecoderTables {
             cur_code <<= 1;
         }
 
+        if total_used_syms == 0 {
+            return false;
+        }
+
         self.total_used_syms = total_used_syms;
         if total_used_syms > self.cur_sorted_symbol_order_size {
             self.cur_sorted_symbol_order_size = total_used_syms;
diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index b5fed9b..4acfca2 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -164,6 +164,9 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn decode(&mut self, model: &StaticHuffmanDataModel) -> Result<u32, bool> {
         let p_tables = &model.p_decode_tables;
+        if p_tables.total_used_syms == 0 {
+            return Err(false);
+        }
         if self.bit_count < 24 {
             if self.bit_count < 16 {
                 let c0: u32 = self.next_byte();
-- 
2.43.0


From eeba6ffb7419857c8f61d83c350aa81381c385ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 21/26] fix: crunch selector delta symbols out of range are
 errors

---
 src/crunch/crn_unpacker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 0021351..f93aa70 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -225,6 +225,9 @@ impl<'slice> CrnUnpacker<'slice> {
                     Ok(s) => s,
                     Err(_) => return false,
                 };
+                if sym as usize >= delta0.len() {
+                    return false;
+                }
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
@@ -345,6 +348,9 @@ impl<'slice> CrnUnpacker<'slice> {
                     Ok(s) => s,
                     Err(_) => return false,
                 } as i32;
+                if sym as usize >= delta0.len() {
+                    return false;
+                }
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 7) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 7) as u32;
             }
-- 
2.43.0


From e4715cba92c3629678311e9affcee6699fd30b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:57 +0000
Subject: [PATCH 22/26] fix: crunch palette indices out of range are errors

---
 src/crunch/crn_unpacker.rs      | 11 +++++++++++
 src/unitycrunch/crn_unpacker.rs | 17 +++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index f93aa70..d26ab91 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -109,6 +109,17 @@ impl<'slice> CrnUnpacker<'slice> {
                 return false;
             }
         }
+        // the deltas of an index are smaller than the number of palette entries
+        if self.endpoint_delta_dm[0].total_syms > self.p_header.color_endpoints.num.cast_to_uint()
+            || self.selector_delta_dm[0].total_syms
+                > self.p_header.color_selectors.num.cast_to_uint()
+            || self.endpoint_delta_dm[1].total_syms
+                > self.p_header.alpha_endpoints.num.cast_to_uint()
+            || self.selector_delta_dm[1].total_syms
+                > self.p_header.alpha_selectors.num.cast_to_uint()
+        {
+            return false;
+        }
         self.codec.stop_decoding();
         true
     }
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 03c00b2..281105c 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -117,6 +117,17 @@ impl<'slice> CrnUnpacker<'slice> {
                 return false;
             }
         }
+        // the deltas of an index are smaller than the number of palette entries
+        if self.endpoint_delta_dm[0].total_syms > self.p_header.color_endpoints.num.cast_to_uint()
+            || self.selector_delta_dm[0].total_syms
+                > self.p_header.color_selectors.num.cast_to_uint()
+            || self.endpoint_delta_dm[1].total_syms
+                > self.p_header.alpha_endpoints.num.cast_to_uint()
+            || self.selector_delta_dm[1].total_syms
+                > self.p_header.alpha_selectors.num.cast_to_uint()
+        {
+            return false;
+        }
         self.codec.stop_decoding();
         true
     }
@@ -1016,6 +1027,9 @@ impl<'slice> CrnUnpacker<'slice> {
         output_height: u32,
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Missing color endpoints.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
@@ -1132,6 +1146,9 @@ impl<'slice> CrnUnpacker<'slice> {
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Missing color endpoints.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
-- 
2.43.0


From 70856ca4c694f9c81793380febd553e3b656b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:00 +0000
Subject: [PATCH 23/26] fix: the faces of a crunch texture and odd Unity block
 rows start at their own offsets

---
 src/crunch/crn_unpacker.rs      | 20 +++++++-----
 src/unitycrunch/crn_unpacker.rs | 54 ++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index d26ab91..a7c35b0 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -539,8 +539,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        let face_size = p_dst.len() / core::cmp::max(num_faces as usize, 1);
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * face_size;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -708,8 +709,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        let face_size = p_dst.len() / core::cmp::max(num_faces as usize, 1);
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * face_size;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -866,8 +868,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        let face_size = p_dst.len() / core::cmp::max(num_faces as usize, 1);
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * face_size;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -986,8 +989,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        let face_size = p_dst.len() / core::cmp::max(num_faces as usize, 1);
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * face_size;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 281105c..4ad6fcc 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -654,16 +654,18 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let face_size_in_dwords = (p_dst.len() >> 2) / core::cmp::max(num_faces, 1);
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
+        for f in 0..num_faces {
             for y in 0..height {
+                let mut data_pos: usize = f * face_size_in_dwords + y as usize * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -716,7 +718,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -732,7 +733,6 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -740,9 +740,12 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let face_size_in_dwords = (p_dst.len() >> 2) / core::cmp::max(num_faces, 1);
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
+        for f in 0..num_faces {
             for y in 0..height {
+                let mut data_pos: usize = f * face_size_in_dwords + y as usize * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -824,7 +827,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -839,16 +841,18 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let face_size_in_dwords = (p_dst.len() >> 2) / core::cmp::max(num_faces, 1);
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
+        for f in 0..num_faces {
             for y in 0..height {
+                let mut data_pos: usize = f * face_size_in_dwords + y as usize * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -904,7 +908,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -919,7 +922,6 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -927,9 +929,12 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let face_size_in_dwords = (p_dst.len() >> 2) / core::cmp::max(num_faces, 1);
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
+        for f in 0..num_faces {
             for y in 0..height {
+                let mut data_pos: usize = f * face_size_in_dwords + y as usize * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1014,7 +1019,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1032,7 +1036,6 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1040,9 +1043,12 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let face_size_in_dwords = (p_dst.len() >> 2) / core::cmp::max(num_faces, 1);
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
+        for f in 0..num_faces {
             for y in 0..height {
+                let mut data_pos: usize = f * face_size_in_dwords + y as usize * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1132,7 +1138,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1151,7 +1156,6 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1161,9 +1165,12 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let num_faces = self.p_header.faces.cast_to_uint() as usize;
+        let face_size_in_dwords = (p_dst.len() >> 2) / core::cmp::max(num_faces, 1);
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
+        for f in 0..num_faces {
             for y in 0..height {
+                let mut data_pos: usize = f * face_size_in_dwords + y as usize * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1291,7 +1298,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
-- 
2.43.0


From 038909d46201833456b26a71ab14b27a43d9e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:03 +0000
Subject: [PATCH 24/26] fix: the size of a crunch level does not overflow

---
 src/crunch.rs      | 4 +++-
 src/unitycrunch.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index 6f41e1f..5d458c8 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -31,7 +31,9 @@ pub fn crunch_unpack_level(
     let blocks_x: u32 = max(1, (width + 3) >> 2);
     let blocks_y: u32 = max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("The texture is too large.")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ae4940e..0ef39ae 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -22,7 +22,9 @@ pub fn unity_crunch_unpack_level(
     let blocks_x: u32 = core::cmp::max(1, (width + 3) >> 2);
     let blocks_y: u32 = core::cmp::max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("The texture is too large.")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
-- 
2.43.0


From 3c0e040d5f552c6ddef6fc8742e20ce9f3b905cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:06 +0000
Subject: [PATCH 25/26] fix: Unity crunch ETC endpoint deltas wrap instead of
 overflowing

---
 src/unitycrunch/crn_unpacker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 4ad6fcc..95cd991 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -201,10 +201,11 @@ impl<'slice> CrnUnpacker<'slice> {
         for _ in 0..num_color_endpoints {
             if has_etc_color_blocks {
                 for b in [0, 8, 16, 24] {
-                    a += match self.codec.decode(&dm[0]) {
+                    let da: u32 = match self.codec.decode(&dm[0]) {
                         Ok(s) => s,
                         Err(_) => return false,
-                    } << b;
+                    };
+                    a = a.wrapping_add(da << b);
                 }
                 a &= 0x1F1F1F1F;
                 if has_subblocks {
-- 
2.43.0


From 3288d9e9334361df94c29ec44e7d80f8e0a54df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:09 +0000
Subject: [PATCH 26/26] fix: a crunch level which does not fit into memory is
 an error

---
 src/crunch/crn_unpacker.rs      | 7 ++++++-
 src/unitycrunch/crn_unpacker.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index a7c35b0..d8ea20a 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -451,7 +451,12 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
+        let ret_size = dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize;
+        let mut ret: alloc::vec::Vec<u8> = alloc::vec::Vec::new();
+        if ret.try_reserve_exact(ret_size).is_err() {
+            return Err("Not enough memory to decompress.");
+        }
+        ret.resize(ret_size, 0);
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 95cd991..d231029 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -587,7 +587,12 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
+        let ret_size = dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize;
+        let mut ret: alloc::vec::Vec<u8> = alloc::vec::Vec::new();
+        if ret.try_reserve_exact(ret_size).is_err() {
+            return Err("Not enough memory to decompress.");
+        }
+        ret.resize(ret_size, 0);
         if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
-- 
2.43.0

