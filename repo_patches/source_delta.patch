From cf5980372e1a80d2a697c8dd911388be4295daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:11 +0000
Subject: [PATCH 01/19] fix: third sample of each group in the 10-bit unpacker
 took its low bits from the wrong byte

---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From 678ffdda20699dca21c87df18d920fa381fa9522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 02/19] hooks: re-export private decoder items under --cfg
 rawloader_verif

---
 src/decoders/ljpeg/mod.rs |  6 ++++++
 src/decoders/mod.rs       | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index 5e0e0f5..940930d 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -300,3 +300,9 @@ impl<'a> LjpegDecompressor<'a> {
   pub fn super_v(&self) -> usize { self.sof.components[0].super_v }
   pub fn super_h(&self) -> usize { self.sof.components[0].super_h }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  pub use super::decompressors::*;
+}
diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index 59abd25..5b7e9b4 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -448,3 +448,14 @@ impl RawLoader {
     }
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  pub use super::basics::*;
+  pub use super::ljpeg::LjpegDecompressor;
+  pub use super::ljpeg::huffman::HuffTable;
+  pub use super::ljpeg::verif_hooks::*;
+  pub use super::tiff::{TiffIFD, TiffEntry, Tag};
+  pub use super::ciff::{CiffIFD, CiffTag};
+}
-- 
2.43.0


From 324b16f214132611b1d0388fa0965822eb88c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:34 +0000
Subject: [PATCH 03/19] fix: read Panasonic bits circularly inside each split
 block

With split blocks the byte following the block's last one is the block's
first one, not the first byte of the next block (which may not exist).
---
 src/decoders/rw2.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index eeee447..596570c 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -155,7 +155,11 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     if self.split {
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    // The block is circular, the byte after the last one is the first one
+    let block = self.pos - 0x4000;
+    let low = self.buffer[block + byte as usize] as u32;
+    let high = self.buffer[block + (byte as usize + 1) % 0x4000] as u32;
+    let bits = (high << 8) | low;
     (bits >> ((self.nbits-num) & 7)) & (0x0ffffffffu32 >> (32-num))
   }
 
-- 
2.43.0


From c43924709d777b97b3a1212cb65eed61b9d9efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:52 +0000
Subject: [PATCH 04/19] hooks: entry points of private vendor decoders under
 --cfg rawloader_verif

---
 src/decoders/arw.rs | 11 +++++++++++
 src/decoders/crw.rs | 10 ++++++++++
 src/decoders/dcr.rs |  7 +++++++
 src/decoders/iiq.rs | 10 ++++++++++
 src/decoders/mod.rs | 10 ++++++++++
 src/decoders/nef.rs | 10 ++++++++++
 src/decoders/pef.rs | 10 ++++++++++
 src/decoders/raf.rs |  7 +++++++
 src/decoders/rw2.rs |  8 ++++++++
 9 files changed, 83 insertions(+)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index aeccb3b..5a95d0d 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -272,3 +272,14 @@ impl<'a> ArwDecoder<'a> {
     out
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::basics::*;
+  use decoders::tiff::*;
+  pub fn decode_arw1(buf: &[u8], width: usize, height: usize) -> Vec<u16> { super::ArwDecoder::decode_arw1(buf, width, height) }
+  pub fn decode_arw2(buf: &[u8], width: usize, height: usize, curve: &LookupTable) -> Vec<u16> { super::ArwDecoder::decode_arw2(buf, width, height, curve) }
+  pub fn get_curve(raw: &TiffIFD) -> Result<LookupTable, String> { super::ArwDecoder::get_curve(raw) }
+  pub fn sony_decrypt(buf: &[u8], offset: usize, length: usize, key: u32) -> Vec<u8> { super::ArwDecoder::sony_decrypt(buf, offset, length, key) }
+}
diff --git a/src/decoders/crw.rs b/src/decoders/crw.rs
index 88777d6..08ab705 100644
--- a/src/decoders/crw.rs
+++ b/src/decoders/crw.rs
@@ -261,3 +261,13 @@ impl<'a> CrwDecoder<'a> {
     Ok(out)
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::{RawLoader, Camera};
+  use decoders::ciff::*;
+  pub fn decode_compressed<'a>(buf: &'a [u8], ciff: CiffIFD<'a>, loader: &'a RawLoader, cam: &Camera, width: usize, height: usize) -> Result<Vec<u16>,String> {
+    super::CrwDecoder::new(buf, ciff, loader).decode_compressed(cam, width, height)
+  }
+}
diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e18b32a..28e5ec5 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -117,3 +117,10 @@ impl<'a> DcrDecoder<'a> {
     out
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::basics::*;
+  pub fn decode_kodak65000(buf: &[u8], curve: &LookupTable, width: usize, height: usize) -> Vec<u16> { super::DcrDecoder::decode_kodak65000(buf, curve, width, height) }
+}
diff --git a/src/decoders/iiq.rs b/src/decoders/iiq.rs
index 35de4e0..d760d29 100644
--- a/src/decoders/iiq.rs
+++ b/src/decoders/iiq.rs
@@ -98,3 +98,13 @@ impl<'a> IiqDecoder<'a> {
     }))
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::RawLoader;
+  use decoders::tiff::*;
+  pub fn decode_compressed<'a>(buf: &'a [u8], tiff: TiffIFD<'a>, loader: &'a RawLoader, data_offset: usize, strip_offset: usize, width: usize, height: usize) -> Vec<u16> {
+    super::IiqDecoder::new(buf, tiff, loader).decode_compressed(data_offset, strip_offset, width, height)
+  }
+}
diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index 5b7e9b4..515d0f8 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -458,4 +458,14 @@ pub mod verif_hooks {
   pub use super::ljpeg::verif_hooks::*;
   pub use super::tiff::{TiffIFD, TiffEntry, Tag};
   pub use super::ciff::{CiffIFD, CiffTag};
+  pub use super::srw::SrwDecoder;
+  pub use super::orf::OrfDecoder;
+  pub use super::arw::verif_hooks as arw;
+  pub use super::rw2::verif_hooks as rw2;
+  pub use super::raf::verif_hooks as raf;
+  pub use super::pef::verif_hooks as pef;
+  pub use super::nef::verif_hooks as nef;
+  pub use super::crw::verif_hooks as crw;
+  pub use super::dcr::verif_hooks as dcr;
+  pub use super::iiq::verif_hooks as iiq;
 }
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 894402c..919a1cd 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -354,3 +354,13 @@ impl<'a> NefDecoder<'a> {
     })))
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::RawLoader;
+  use decoders::tiff::*;
+  pub fn decode_compressed<'a>(buf: &'a [u8], tiff: TiffIFD<'a>, loader: &'a RawLoader, src: &[u8], width: usize, height: usize, bps: usize) -> Result<Vec<u16>,String> {
+    super::NefDecoder::new(buf, tiff, loader).decode_compressed(src, width, height, bps)
+  }
+}
diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 2150809..ae725e6 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -139,3 +139,13 @@ impl<'a> PefDecoder<'a> {
     Ok(out)
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::RawLoader;
+  use decoders::tiff::*;
+  pub fn decode_compressed<'a>(buf: &'a [u8], tiff: TiffIFD<'a>, loader: &'a RawLoader, src: &[u8], width: usize, height: usize) -> Result<Vec<u16>,String> {
+    super::PefDecoder::new(buf, tiff, loader).decode_compressed(src, width, height)
+  }
+}
diff --git a/src/decoders/raf.rs b/src/decoders/raf.rs
index ae8dae2..2506444 100644
--- a/src/decoders/raf.rs
+++ b/src/decoders/raf.rs
@@ -138,3 +138,10 @@ impl<'a> RafDecoder<'a> {
     }
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::Camera;
+  pub fn rotate_image(src: &[u16], camera: &Camera, width: usize, height: usize) -> (usize, usize, Vec<u16>) { super::RafDecoder::rotate_image(src, camera, width, height) }
+}
diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index 596570c..bff9aea 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -167,3 +167,11 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     self.nbits -= num;
   }
 }
+
+/// Verification hooks, only compiled with `--cfg rawloader_verif`
+#[cfg(rawloader_verif)]
+pub mod verif_hooks {
+  use decoders::basics::BitPump;
+  pub fn panasonic_pump<'a>(src: &'a [u8], split: bool) -> Box<BitPump + 'a> { Box::new(super::BitPumpPanasonic::new(src, split)) }
+  pub fn decode_panasonic(buf: &[u8], width: usize, height: usize, split: bool) -> Vec<u16> { super::Rw2Decoder::decode_panasonic(buf, width, height, split) }
+}
-- 
2.43.0


From e6b0534fc2ad6620a10124ddf9485eaed5d16237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:16 +0000
Subject: [PATCH 05/19] fix: building the big Huffman table indexed past
 huffval for bits that are no code

With 16 bit precision, 16 bit codes and an incomplete code the search stops at
l = 16 without a match, and (code - mincode) is then past the last value.
---
 src/decoders/ljpeg/huffman.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..aea721e 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -222,8 +222,8 @@ impl HuffTable {
           l += 1;
         }
 
-        //With garbage input we may reach the sentinel value l = 17.
-        if l > self.precision as u32 || self.valptr[l as usize] == 0xff {
+        // Bits that are no code get here with l = 16 and a code past the last one.
+        if l > self.precision as u32 || code > self.maxcode[l as usize] || self.valptr[l as usize] == 0xff {
           self.bigtable[i] = 0xff;
           continue
         } else {
-- 
2.43.0


From d7393833ce23dc3765f75f13c244e10d299360b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:16 +0000
Subject: [PATCH 06/19] fix: big Huffman table entries for symbol 16 consumed
 bits that were not peeked

With dng_bug the entry consumes 16 bits more than the code although only 13 bits
have been peeked, which underflows the pump's bit count. For codes longer than
the 13 bits of the table the entry was also used for other codes with the same
first 13 bits. Leave both to the bit by bit path.
---
 src/decoders/ljpeg/huffman.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index aea721e..b08d306 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -235,8 +235,10 @@ impl HuffTable {
       }
 
       if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
+        // The code has to be inside the bits the table is indexed with, and the 16 bits
+        // that dng_bug skips can be more than what has been peeked
+        self.bigtable[i] = if self.dng_bug || l > BIG_TABLE_BITS {
+          0xff
         } else {
           (-(32768 << 8)) | l as i32
         };
-- 
2.43.0


From a066ad4500ab2c290ecfefd0d50fe2723d4f31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:16 +0000
Subject: [PATCH 07/19] fix: the 256th Huffman value was taken for the
 no-codes-of-this-length marker

valptr is 255 for a length whose codes start at the 256th value, the same as the
0xff marker. Use -1, which is no index.
---
 src/decoders/ljpeg/huffman.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index b08d306..78e1a44 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -158,7 +158,7 @@ impl HuffTable {
         p += self.bits[l] as usize;
         self.maxcode[l] = huffcode[p - 1] as i32;
       } else {
-        self.valptr[l] = 0xff;   // This check must be present to avoid crash on junk
+        self.valptr[l] = -1;   // This check must be present to avoid crash on junk
         self.maxcode[l] = -1;
       }
       if p > 256 {
@@ -223,7 +223,7 @@ impl HuffTable {
         }
 
         // Bits that are no code get here with l = 16 and a code past the last one.
-        if l > self.precision as u32 || code > self.maxcode[l as usize] || self.valptr[l as usize] == 0xff {
+        if l > self.precision as u32 || code > self.maxcode[l as usize] || self.valptr[l as usize] == -1 {
           self.bigtable[i] = 0xff;
           continue
         } else {
@@ -297,7 +297,7 @@ impl HuffTable {
     }
 
     // With garbage input we may reach the sentinel value l = 17.
-    if l > self.precision || self.valptr[l] == 0xff {
+    if l > self.precision || self.valptr[l] == -1 {
       return Err(format!("ljpeg: bad Huffman code: {}", l).to_string())
     } else {
       return Ok(self.huffval[
-- 
2.43.0


From 01a8b87d0d8884b4b176e7d8f082014f9c86716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:12 +0000
Subject: [PATCH 08/19] fix: decode odd-width lossless JPEG tiles without
 spilling into the next row

---
 src/decoders/ljpeg/decompressors.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index 430e71f..b6d44d3 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -15,8 +15,10 @@ pub fn decode_ljpeg_2components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
   out[x]   = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  let skip_x = ljpeg.sof.width - width/2;
+  let first2 = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
+  if width > 1 { out[x+1] = first2; }
+  // With an odd width the second half of the last pair is outside the output
+  let skip_x = ljpeg.sof.width - (width+1)/2;
 
   for row in 0..height {
     let startcol = if row == 0 {x+2} else {x};
@@ -32,7 +34,9 @@ pub fn decode_ljpeg_2components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
       let diff1 = try!(htable1.huff_decode(&mut pump));
       let diff2 = try!(htable2.huff_decode(&mut pump));
       out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
-      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      if col+1 < width+x {
+        out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      }
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
-- 
2.43.0


From 11f540c385e9a7e718c464d677bd5122686ff4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:23 +0000
Subject: [PATCH 09/19] fix: place four-component lossless JPEG tiles at their
 column in the image

---
 src/decoders/ljpeg/decompressors.rs | 28 ++++++++++++++--------------
 src/decoders/ljpeg/mod.rs           |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index b6d44d3..d81e3d6 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -96,7 +96,7 @@ pub fn decode_ljpeg_3components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
   Ok(())
 }
 
-pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], width: usize, height: usize) -> Result<(),String> {
+pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: usize, stripwidth:usize, width: usize, height: usize) -> Result<(),String> {
   if ljpeg.sof.width*4 < width || ljpeg.sof.height < height {
     return Err(format!("ljpeg: trying to decode {}x{} into {}x{}",
                        ljpeg.sof.width*4, ljpeg.sof.height,
@@ -109,21 +109,21 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
   let mut pump = BitPumpJPEG::new(ljpeg.buffer);
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
-  out[0] = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  out[2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
-  out[3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
+  out[x]   = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
+  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
+  out[x+2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
+  out[x+3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
   let skip_x = ljpeg.sof.width - width/4;
 
   for row in 0..height {
-    let startcol = if row == 0 {4} else {0};
-    for col in (startcol..width).step(4) {
-      let pos = if col == 0 {
+    let startcol = if row == 0 {x+4} else {x};
+    for col in (startcol..(width+x)).step(4) {
+      let pos = if col == x {
         // At start of line predictor starts with start of previous line
-        (row-1)*width
+        (row-1)*stripwidth+x
       } else {
         // All other cases use the two previous pixels in the same line
-        row*width+col-4
+        row*stripwidth+col-4
       };
 
       let (p1,p2,p3,p4) = (out[pos],out[pos+1],out[pos+2],out[pos+3]);
@@ -132,10 +132,10 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
       let diff2 = try!(htable2.huff_decode(&mut pump));
       let diff3 = try!(htable3.huff_decode(&mut pump));
       let diff4 = try!(htable4.huff_decode(&mut pump));
-      out[row*width+col] = ((p1 as i32) + diff1) as u16;
-      out[row*width+col+1] = ((p2 as i32) + diff2) as u16;
-      out[row*width+col+2] = ((p3 as i32) + diff3) as u16;
-      out[row*width+col+3] = ((p4 as i32) + diff4) as u16;
+      out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
+      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      out[row*stripwidth+col+2] = ((p3 as i32) + diff3) as u16;
+      out[row*stripwidth+col+3] = ((p4 as i32) + diff4) as u16;
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index 940930d..276a643 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -256,7 +256,7 @@ impl<'a> LjpegDecompressor<'a> {
         match self.sof.cps {
           2 => decode_ljpeg_2components(self, out, x, stripwidth, width, height),
           3 => decode_ljpeg_3components(self, out, x, stripwidth, width, height),
-          4 => decode_ljpeg_4components(self, out, width, height),
+          4 => decode_ljpeg_4components(self, out, x, stripwidth, width, height),
           c => return Err(format!("ljpeg: {} component files not supported", c).to_string()),
         }
       },
-- 
2.43.0


From 7b1b62976f4f047b8f6a5a5270c1c4e2596d0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 10/19] fix: clampbits returned -1 instead of the maximum for
 values above the range

---
 src/decoders/basics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..9185a44 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -10,7 +10,8 @@ pub use decoders::pumps::*;
 pub fn clampbits(val: i32, bits: u32) -> i32 {
   let temp = val >> bits;
   if temp != 0 {
-    !temp >> (32-bits)
+    // The shift has to bring in zeros so that values above the range give the maximum
+    ((!temp as u32) >> (32-bits)) as i32
   } else {
     val
   }
-- 
2.43.0


From 75af1e2a08eac26feb68535d183ba00befa590b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 11/19] fix: curve tables underflowed for entries smaller than
 a quarter of the distance between their neighbours

---
 src/decoders/basics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 9185a44..db0eb32 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -113,7 +113,9 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 {table[i-1]} else {center};
       let upper = if i < (table.len()-1) {table[i+1]} else {center};
-      let base = if center == 0 {0} else {center - ((upper - lower + 2) / 4)};
+      // Steep curves have entries closer to zero than a quarter of the distance
+      let quarter = ((upper - lower) as u32 + 2) / 4;
+      let base = (center as u32).saturating_sub(quarter) as u16;
       let delta = upper - lower;
       tbl[i] = (center, base, delta);
     }
-- 
2.43.0


From 245c9bafa2b3d49beb2ffb1bedb9e40a190c9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 12/19] fix: dithering wrapped values above 65535 around to
 black

---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index db0eb32..8518a9a 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -135,6 +135,6 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    if pixel > 65535 {65535} else {pixel as u16}
   }
 }
-- 
2.43.0


From 2aed4ee7e69b06584412854fa4a12ec0afdbbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:25 +0000
Subject: [PATCH 13/19] fix: cropping images with several components per pixel
 took the wrong samples

---
 src/imageops/gofloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..de0b36d 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*img.cpp..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
@@ -35,7 +35,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
   } else {
     let mut out = OpBuffer::new(width, height, img.cpp);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(1).zip(img.data[img.width*(row+y)+x..].chunks(1)) {
+      for (o, i) in line.chunks_mut(1).zip(img.data[(img.width*(row+y)+x)*img.cpp..].chunks(1)) {
         o[0] = i[0] as f32;
       }
     }));
-- 
2.43.0


From 2cd65148d3ea72e2e0805040b3a7991041db7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:09 +0000
Subject: [PATCH 14/19] fix: reducing an image took the row step from the width
 and the column step from the height

---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From 0fdd559c1a868ec14f8b1865e2b6792238327451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:09 +0000
Subject: [PATCH 15/19] fix: very long or narrow images were reduced to a side
 of zero pixels, which panics

---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From 0de0e3d9c68b6dc17ce2cf45c46e96b69a1dac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 16/19] fix: average masked black areas in integers so that
 large areas do not lose precision

Summing 16 bit samples in an f32 drops low bits once the sum passes 2^24, so
the black level of a camera with large masked areas came out off by one or
more, and a colour without samples gave 0/0.
---
 src/decoders/image.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 4e3b311..9a04815 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -64,26 +64,29 @@ pub struct SRGBImage {
 impl RawImage {
   #[doc(hidden)] pub fn new(camera: Camera, width: usize, height: usize, wb_coeffs: [f32;4], image: Vec<u16>) -> RawImage {
     let blacks = if camera.blackareah.1 != 0 || camera.blackareav.1 != 0 {
-      let mut avg = [0 as f32; 4];
-      let mut count = [0 as f32; 4];
+      let mut sum = [0 as u64; 4];
+      let mut count = [0 as u64; 4];
       for row in camera.blackareah.0 .. camera.blackareah.0+camera.blackareah.1 {
         for col in 0..width {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
-          count[color] += 1.0;
+          sum[color] += image[row*width+col] as u64;
+          count[color] += 1;
         }
       }
       for row in 0..height {
         for col in camera.blackareav.0 .. camera.blackareav.0+camera.blackareav.1 {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
-          count[color] += 1.0;
+          sum[color] += image[row*width+col] as u64;
+          count[color] += 1;
         }
       }
-      [(avg[0]/count[0]) as u16,
-       (avg[1]/count[1]) as u16,
-       (avg[2]/count[2]) as u16,
-       (avg[3]/count[3]) as u16]
+      let mut avg = [0 as u16; 4];
+      for color in 0..4 {
+        if count[color] > 0 {
+          avg[color] = (sum[color] / count[color]) as u16;
+        }
+      }
+      avg
     } else {
       camera.blacklevels
     };
-- 
2.43.0


From 49c6d0597bbbcaa74511992208ae18816bca8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 17/19] fix: refuse decoded images that lack samples for their
 dimensions

A CR2 sRAW file whose tags disagree with its JPEG frame decoded to an image
with fewer samples than width*height*cpp, or more.
---
 src/decoders/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index 515d0f8..bb38f33 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -432,7 +432,19 @@ impl RawLoader {
   pub fn decode(&self, reader: &mut Read) -> Result<RawImage,String> {
     let buffer = try!(Buffer::new(reader));
     let decoder = try!(self.get_decoder(&buffer));
-    decoder.image()
+    let mut image = try!(decoder.image());
+    // Make sure the image has exactly the samples its dimensions call for, whatever the file claimed
+    let size = match image.width.checked_mul(image.height) {
+      Some(pixels) => pixels.checked_mul(image.cpp),
+      None => None,
+    };
+    match size {
+      Some(size) if image.data.len() >= size => {
+        image.data.truncate(size);
+        Ok(image)
+      },
+      _ => Err("Decoded image doesn't have enough data for its dimensions".to_string()),
+    }
   }
 
   pub fn decode_safe(&self, path: &str) -> Result<RawImage,String> {
-- 
2.43.0


From 7428cae9aa30ea3640b22bbec04d3273b74c6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 18/19] fix: keep the Samsung v3 scale between its updates

The scale of a line is only updated at every fourth block of 16 columns. It
was reset to 0 at the blocks in between, so all blocks but every fourth one
of a scaled line came out wrong.
---
 src/decoders/srw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..e819a20 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -282,7 +282,7 @@ impl<'a> SrwDecoder<'a> {
             pump.get_bits(12) as i32
           }
         } else {
-          0
+          scale
         };
 
         // First we figure out which reference pixels mode we're in
-- 
2.43.0


From 3210921a2cc8b488f4befbcbff125ac42fec2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:51 +0000
Subject: [PATCH 19/19] fix: step over Fuji records of 65532 bytes and more
 without 16-bit overflow

---
 src/decoders/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..91f3900 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -319,7 +319,7 @@ impl<'a> TiffIFD<'a> {
           endian: BIG_ENDIAN,
         });
       }
-      off += (len+4) as usize;
+      off += len as usize + 4;
     }
 
     Ok(TiffIFD {
-- 
2.43.0

