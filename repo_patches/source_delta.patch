From 6d2279b46484c0f3aec7e85036f00254ad57db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 01/16] fix: write the last LZW data bits of an image

The compressor only emitted whole bytes, so up to seven trailing bits
were dropped.  With small code sizes these bits could include part of
the final data code, and the encoded image could not be decoded again
(for example any 2x1 image).

Emit the final partial byte whenever it contains image data.
---
 gift/src/lzw.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..a12a929 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -223,6 +223,12 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // bits ahead of an unfinished end code belong to the image data
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+            self.code = 0;
+            self.n_bits = 0;
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From eaa37297478491ffcd4f545d8636d7b09f6e6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 02/16] fix: encode images which use color index 255

Adding one to the largest index overflowed u8: it panicked in debug
builds, and selected a minimum code size of 2 in release builds, which
produced a corrupt image.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..5ac087a 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From e5bfe8ba36e0a62c2b2a17731e1732fdce700443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:11 +0000
Subject: [PATCH 03/16] fix: reject LZW data which starts with an undefined
 code

The first code after a clear code could refer to the next, not yet
defined, table entry.  It was then used as a prefix, which either
indexed out of bounds, or made a table entry its own parent so that
decoding never ended (and allocated memory without limit).
---
 gift/src/lzw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index a12a929..457e00a 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -392,7 +392,9 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
-            None => buffer.push(code as u8),
+            // The first code must be a single data value
+            None if code < self.clear_code() => buffer.push(code as u8),
+            None => return Err(Error::InvalidLzwData),
         }
         if next_code + 1 == self.code_bits.entries() {
             self.code_bits += 1;
-- 
2.43.0


From 92bc2d9458a1b1f1c427ffe92309cf16de1593eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:11 +0000
Subject: [PATCH 04/16] fix: stop growing the LZW decoder table when it is full

GIF encoders may keep using a full table without sending a clear code.
Entries were added beyond the 4096 addressable ones, and after 65535
of them the next code calculation overflowed (a panic in debug builds,
or a bogus InvalidLzwData error in release builds).
---
 gift/src/lzw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 457e00a..0651eb6 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -389,7 +389,10 @@ impl Decompressor {
                 } else {
                     self.lookup(prefix)
                 };
-                self.push_node(Some(prefix), data);
+                // Table cannot grow once all codes are used
+                if next_code < Bits::MAX.entries() {
+                    self.push_node(Some(prefix), data);
+                }
                 self.decompress_buffer(code, buffer);
             }
             // The first code must be a single data value
-- 
2.43.0


From 70759cfcfda2e8ee2f956d4d0f9304aff5b21dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:11 +0000
Subject: [PATCH 05/16] fix: stop LZW decoding at the end code

Padding bits (and any other data) after the end of information code
were decoded as additional pixels, so that an image with missing data
could be accepted as complete.
---
 gift/src/lzw.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 0651eb6..5d580a3 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// Flag when end code has been found
+    done: bool,
 }
 
 impl CNode {
@@ -270,6 +272,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            done: false,
         };
         dec.reset_table();
         dec
@@ -343,7 +346,9 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.done
+            && let (Some(code), n_consumed) = self.unpack(bytes)
+        {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -362,8 +367,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
-            self.prefix = None;
+            self.done = true;
         } else {
             self.decompress_data(code, buffer)?;
             self.prefix = Some(code);
-- 
2.43.0


From 3cbf64fa48a2a93a3fdb85bd38975f0cda6cf599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 06/16] fix: end step iteration after the first error

When the blocks before the first frame could not be decoded, the step
iterator returned errors forever.  Decoder::into_iter collects all
steps, so it never returned for such a file (an empty one, for
example).  An error while applying a frame did not end iteration
either.
---
 gift/src/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..5bbc022 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -568,6 +568,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when done
+    done: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -630,15 +632,21 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         if self.raster.is_none()
             && let Err(e) = self.make_raster()
         {
+            self.done = true;
             return Some(Err(e));
         }
-        match self.raster {
+        let step = match self.raster {
             Some(_) => self.next_step(),
             None => None,
-        }
+        };
+        self.done = !matches!(step, Some(Ok(_)));
+        step
     }
 }
 
@@ -650,6 +658,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From 6d7ca264f233aac1b927c7364b4ed14b5ad3eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 07/16] fix: end looping step iteration after an error

The looping iterator returned a decoding error before the steps which
precede it in the file, and then carried on with those steps (forever,
with a loop count of zero).  Return the steps first, then the error,
and end there, as the non-looping iterator does.
---
 gift/src/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 5bbc022..6216f64 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -767,12 +767,12 @@ impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(err) = self.err.take() {
-            return Some(Err(err));
-        }
         if let Some(step) = self.steps.get(self.step_n) {
             self.step_n += 1;
             Some(Ok(step.clone()))
+        } else if let Some(err) = self.err.take() {
+            self.loop_count = None;
+            Some(Err(err))
         } else if let Some(loop_count) = self.loop_count {
             match loop_count.cmp(&1) {
                 Ordering::Greater => self.loop_count = Some(loop_count - 1),
-- 
2.43.0


From d12c553ccba23288a4271921f809a92c0f973fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 08/16] fix: end frame iteration after a block sequence error

Iterators return None after the first error, but the frame iterator
carried on with the following blocks after an InvalidBlockSequence
error.
---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 6216f64..dfbb41d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -447,7 +447,10 @@ impl<R: Read> Iterator for Frames<R> {
                     match self.handle_block(b) {
                         Ok(Some(f)) => return Some(Ok(f)), // transpose
                         Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            self.blocks.done = true;
+                            return Some(Err(e));
+                        }
                     }
                 }
                 Err(e) => return Some(Err(e)),
-- 
2.43.0


From 0d5791187c5a949636c2b2384e2c3f546c5ff810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 09/16] fix: limit the size of the logical screen when decoding
 steps

A screen with more than 2^31 - 1 pixels panicked while creating the
raster, and smaller ones could allocate far more memory than allowed
by the maximum image size.  Return TooLargeImage instead.
---
 gift/src/decode.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index dfbb41d..b2f0107 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -673,6 +673,7 @@ impl<R: Read> StepsOnce<R> {
                 self.loop_count_ext = p.loop_count_ext.take();
                 let w = p.screen_width().into();
                 let h = p.screen_height().into();
+                self.check_screen_sz(w, h)?;
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
@@ -683,6 +684,16 @@ impl<R: Read> StepsOnce<R> {
         }
     }
 
+    /// Check the screen size
+    fn check_screen_sz(&self, w: u32, h: u32) -> Result<()> {
+        // Raster dimensions are limited to i32
+        let max = self.frames.blocks.max_image_sz.unwrap_or(usize::MAX);
+        if w as usize * h as usize > max.min(i32::MAX as usize) {
+            return Err(Error::TooLargeImage);
+        }
+        Ok(())
+    }
+
     /// Get the next step
     fn next_step(&mut self) -> Option<Result<Step>> {
         debug_assert!(self.raster.is_some());
-- 
2.43.0


From f7b1cb359690eace97e1e942cf049bedf1001c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 10/16] fix: do not panic on empty frames or screens

A 0x0 frame at the origin, or an animation with a zero width screen
and a "previous" disposal method, panicked with a zero chunk size.
Return InvalidFrameDimensions, as for all other empty frames.
---
 gift/src/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index b2f0107..8f2294a 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -712,7 +712,7 @@ impl<R: Read> StepsOnce<R> {
             .transparent_color();
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
-            let mut raster = Raster::with_raster(raster);
+            let mut raster = raster.clone();
             update_raster(&mut raster, &frame, &self.global_color_table)?;
             raster
         } else {
@@ -736,7 +736,8 @@ fn update_raster(
     global_tbl: &Option<GlobalColorTable>,
 ) -> Result<()> {
     let reg = frame.region();
-    if raster.intersection(reg) == reg {
+    // an empty frame cannot be drawn
+    if frame.image_desc.image_sz() > 0 && raster.intersection(reg) == reg {
         let clrs = if let Some(tbl) = &frame.local_color_table {
             tbl.colors()
         } else if let Some(tbl) = global_tbl {
-- 
2.43.0


From 49e99e907bf552620c3a3c7df45691f3fc5ac384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 11/16] fix: use little-endian byte order for the loop count

The NETSCAPE2.0 extension stores the loop count with the least
significant byte first, like all GIF integers.  Files from other
encoders were repeated the wrong number of times.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From 534a15a6e0cc01862a35462ec1c3f0ee30e9ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 12/16] fix: leave raster unchanged by transparent pixels

Pixels with the transparent color index replaced the previous contents
of the raster with transparent ones, instead of leaving them visible.
Animations with partially transparent frames were decoded incorrectly.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 8f2294a..07e3a78 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -768,11 +768,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // transparent pixels leave the raster unchanged
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 3fbb54bfea50d8d52fd536c1bfc2c87212f814b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 13/16] fix: keep the frame delay time in decoded steps

Step::delay_time_cs never returned the delay of a decoded frame.
---
 gift/src/decode.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 07e3a78..bed93e1 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -706,10 +706,7 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
-        let transparent_color = frame
-            .graphic_control_ext
-            .unwrap_or_default()
-            .transparent_color();
+        let control = frame.graphic_control_ext.unwrap_or_default();
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = raster.clone();
@@ -725,7 +722,8 @@ impl<R: Read> StepsOnce<R> {
             rs.copy_color(frame.region(), SRgba8::default());
         }
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(control.transparent_color())
+            .with_delay_time_cs(Some(control.delay_time_cs())))
     }
 }
 
-- 
2.43.0


From 2d174b2ae620d561ffb54a47194e5dc283c9b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:52 +0000
Subject: [PATCH 14/16] fix: write at most 256 color table entries

A palette with more than 256 colors was written completely, while the
color table size can be 256 at most, so the following blocks could not
be decoded.
---
 gift/src/encode.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5ac087a..4c2c518 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -438,13 +438,15 @@ fn make_image_desc(raster: &Raster<Gray8>) -> Result<ImageDesc> {
 
 /// Make a color table from a palette
 fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
+    // color tables have up to 256 entries; the rest cannot be used by pixels
+    let len = palette.len().min(256);
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        len as u16,
     );
-    let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    let mut pal = Vec::with_capacity(len * 3);
+    for clr in &palette.colors()[..len] {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From 265e01b1525b77b2e9c0e6fbe1d10886ee8764da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:19 +0000
Subject: [PATCH 15/16] fix: decode rows of interlaced frames in display order

Steps contained the rows of interlaced frames in the order they are
stored in the file.
---
 gift/src/decode.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index bed93e1..733a2f3 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -758,8 +758,15 @@ fn update_frame(
 ) -> Result<()> {
     let trans_clr = frame.transparent_color();
     let width = usize::from(frame.width());
+    let height = usize::from(frame.height());
     let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    for (y, row) in raster.rows_mut(reg).enumerate() {
+        let r = if frame.image_desc.interlaced() {
+            interlaced_row(y, height)
+        } else {
+            y
+        };
+        let frow = &data[r * width..(r + 1) * width];
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -775,6 +782,22 @@ fn update_frame(
     Ok(())
 }
 
+/// Get the position of a row within interlaced image data
+///
+/// Rows are stored in four passes: every 8th row starting from row 0, every
+/// 8th from row 4, every 4th from row 2, then all odd rows.
+fn interlaced_row(y: usize, height: usize) -> usize {
+    let pass_2 = height.div_ceil(8);
+    let pass_3 = height.div_ceil(4);
+    let pass_4 = height.div_ceil(2);
+    match y % 8 {
+        0 => y / 8,
+        4 => pass_2 + y / 8,
+        2 | 6 => pass_3 + y / 4,
+        _ => pass_4 + y / 2,
+    }
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From b1a7806fdb82bdf35e1b856592f0e95327cbbdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:17 +0000
Subject: [PATCH 16/16] fix: clone steps with empty rasters

Raster::with_raster panics for a raster without columns, so cloning a
step with such a raster panicked. Raster can be cloned directly.
---
 gift/src/private.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gift/src/private.rs b/gift/src/private.rs
index 2986e22..f72f374 100644
--- a/gift/src/private.rs
+++ b/gift/src/private.rs
@@ -76,11 +76,9 @@ pub struct Decoder<R: Read> {
 impl Clone for StepRaster {
     fn clone(&self) -> Self {
         match self {
-            StepRaster::TrueColor(r) => {
-                StepRaster::TrueColor(Raster::with_raster(r))
-            }
+            StepRaster::TrueColor(r) => StepRaster::TrueColor(r.clone()),
             StepRaster::Indexed(r, p) => {
-                StepRaster::Indexed(Raster::with_raster(r), p.clone())
+                StepRaster::Indexed(r.clone(), p.clone())
             }
         }
     }
-- 
2.43.0

