From 98d327fbb63ccca7bee9fe965f5c8d1ecf9ddbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 01/38] fix: report I/O errors inside PNM headers

An I/O error in a header token was treated as the end of the token, and one
inside a comment was skipped, looping forever on a persistently failing reader.
---
 src/codecs/pnm/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 07f042e..ad489de 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -382,7 +382,7 @@ trait HeaderReader: Read {
             Some((cur_enabled, Ok(byte)))
         });
 
-        for (_, byte) in mark_comments.filter(|e| e.0) {
+        for (_, byte) in mark_comments.filter(|e| e.0 || e.1.is_err()) {
             match byte {
                 Ok(b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ') => {
                     if !bytes.is_empty() {
@@ -395,7 +395,7 @@ trait HeaderReader: Read {
                 Ok(byte) => {
                     bytes.push(byte);
                 }
-                Err(_) => break,
+                Err(err) => return Err(ImageError::IoError(err)),
             }
         }
 
-- 
2.43.0


From aa15c264e3d6cf68b971cc526dc526a817c28e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 02/38] fix: retry interrupted reads in PAM headers

---
 src/codecs/pnm/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index ad489de..a752250 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -419,8 +419,12 @@ trait HeaderReader: Read {
         let mut buffer = Vec::new();
         loop {
             let mut byte = [0];
-            if self.read(&mut byte)? == 0 || byte[0] == b'\n' {
-                break;
+            match self.read(&mut byte) {
+                Ok(0) => break,
+                Ok(_) if byte[0] == b'\n' => break,
+                Ok(_) => {}
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err.into()),
             }
             buffer.push(byte[0]);
         }
-- 
2.43.0


From 98afab6f92e6d308cdf77caee51c4d3ffc9822ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 03/38] fix: report missing samples and I/O errors in plain PNM
 rasters

A sample missing at the end of the file decoded as 0 and an I/O error ended
the sample being read instead of being reported.
---
 src/codecs/pnm/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index a752250..7da49de 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -694,11 +694,12 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
     let is_separator = |v: &u8| matches!(*v, b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ');
 
     let mut v: u16 = 0;
+    let mut any_digit = false;
     #[allow(clippy::unbuffered_bytes)]
     for rc in reader
         .bytes()
         .skip_while(|v| v.as_ref().ok().is_some_and(is_separator))
-        .take_while(|v| v.as_ref().ok().is_some_and(|c| !is_separator(c)))
+        .take_while(|v| v.as_ref().map_or(true, |c| !is_separator(c)))
     {
         let c = rc?;
         let digit = match c {
@@ -707,6 +708,10 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
         };
         v = v.checked_mul(10).ok_or(DecoderError::Overflow)?;
         v = v.checked_add(digit).ok_or(DecoderError::Overflow)?;
+        any_digit = true;
+    }
+    if !any_digit {
+        return Err(DecoderError::InputTooShort.into());
     }
     Ok(T::try_from(v).or(Err(DecoderError::Overflow))?)
 }
-- 
2.43.0


From da8d371b4cf8c088fac53a8ee330b1a39f89bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 04/38] fix: retry interrupted reads in HDR headers

---
 src/codecs/hdr/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 08f8483..189e561 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -688,7 +688,11 @@ fn read_line_u8<R: Read>(r: &mut R) -> io::Result<Option<Vec<u8>>> {
     let mut ret = Vec::with_capacity(16);
     loop {
         let mut byte = [0];
-        if r.read(&mut byte)? == 0 || byte[0] == b'\n' {
+        let n = match r.read(&mut byte) {
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+            n => n?,
+        };
+        if n == 0 || byte[0] == b'\n' {
             if ret.is_empty() && byte[0] != b'\n' {
                 return Ok(None);
             } else {
-- 
2.43.0


From a4c8b9a16e4863a6f7782e4392a90a92ad6b861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 05/38] fix: report a TGA file truncated within a run-length
 packet

The missing bytes of the repeated pixel were made up from the bytes present.
---
 src/codecs/tga/decoder.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ad28e7..9674776 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -228,7 +228,7 @@ impl<R: Read> TgaDecoder<R> {
     /// Reads a run length encoded data for given number of bytes
     fn read_encoded_data(&mut self, num_bytes: usize) -> io::Result<Vec<u8>> {
         let mut pixel_data = Vec::with_capacity(num_bytes);
-        let mut repeat_buf = Vec::with_capacity(self.bytes_per_pixel);
+        let mut repeat_buf = vec![0; self.bytes_per_pixel];
 
         while pixel_data.len() < num_bytes {
             let run_packet = self.r.read_u8()?;
@@ -239,10 +239,7 @@ impl<R: Read> TgaDecoder<R> {
             if (run_packet & 0x80) != 0 {
                 // high bit set, so we will repeat the data
                 let repeat_count = ((run_packet & !0x80) + 1) as usize;
-                self.r
-                    .by_ref()
-                    .take(self.bytes_per_pixel as u64)
-                    .read_to_end(&mut repeat_buf)?;
+                self.r.read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
                 let data = repeat_buf
@@ -250,7 +247,6 @@ impl<R: Read> TgaDecoder<R> {
                     .cycle()
                     .take(repeat_count * self.bytes_per_pixel);
                 pixel_data.extend(data);
-                repeat_buf.clear();
             } else {
                 // not set, so `run_packet+1` is the number of non-encoded pixels
                 let num_raw_bytes = (run_packet + 1) as usize * self.bytes_per_pixel;
-- 
2.43.0


From e8643d2d2557361354893f9a6d6b7713eca60a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 06/38] fix: report I/O errors while reading the ICC profile of
 a TIFF file

---
 src/codecs/tiff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 9a46a79..7932589 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -202,7 +202,11 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
 
     fn icc_profile(&mut self) -> ImageResult<Option<Vec<u8>>> {
         if let Some(decoder) = &mut self.inner {
-            Ok(decoder.get_tag_u8_vec(tiff::tags::Tag::Unknown(34675)).ok())
+            match decoder.get_tag_u8_vec(tiff::tags::Tag::Unknown(34675)) {
+                Ok(icc) => Ok(Some(icc)),
+                Err(tiff::TiffError::IoError(err)) => Err(ImageError::IoError(err)),
+                Err(_) => Ok(None),
+            }
         } else {
             Ok(None)
         }
-- 
2.43.0


From 15f83e747afb83a8cbb8fb0f4b6159ee8ddca0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 07/38] fix: report AVIF data without a picture instead of
 waiting for one forever

---
 src/codecs/avif/decoder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 04e43f6..6d82d18 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -556,11 +556,19 @@ impl<R: Read> AvifDecoder<R> {
 /// This ensures that in the case of `Again` all pending data is submitted
 /// This should be called after `send_data` (which does not yield `Again` when called the first time)
 fn read_until_ready(decoder: &mut dav1d::Decoder) -> ImageResult<dav1d::Picture> {
+    // Without pending data the decoder starts to drain, which takes more than one call.
+    let mut calls_without_data = 0;
     loop {
         match decoder.get_picture() {
             Err(dav1d::Error::Again) => match decoder.send_pending_data() {
-                Ok(_) => {}
-                Err(dav1d::Error::Again) => {}
+                Ok(_) if calls_without_data >= 2 => {
+                    return Err(ImageError::Decoding(DecodingError::new(
+                        ImageFormat::Avif.into(),
+                        "The data does not contain a picture",
+                    )))
+                }
+                Ok(_) => calls_without_data += 1,
+                Err(dav1d::Error::Again) => calls_without_data = 0,
                 Err(e) => return Err(error_map(e)),
             },
             r => return r.map_err(error_map),
-- 
2.43.0


From 420bb4ff3972eb0b236059809d5227fbc9a6e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 08/38] fix: respect the allocation limit when decoding WebP
 frames and metadata

---
 src/codecs/webp/decoder.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/codecs/webp/decoder.rs b/src/codecs/webp/decoder.rs
index 1f20191..3acb6f8 100644
--- a/src/codecs/webp/decoder.rs
+++ b/src/codecs/webp/decoder.rs
@@ -4,7 +4,9 @@ use crate::buffer::ConvertBuffer;
 use crate::error::{DecodingError, ImageError, ImageResult};
 use crate::image::{ImageDecoder, ImageFormat};
 use crate::metadata::Orientation;
-use crate::{AnimationDecoder, ColorType, Delay, Frame, Frames, RgbImage, Rgba, RgbaImage};
+use crate::{
+    AnimationDecoder, ColorType, Delay, Frame, Frames, Limits, RgbImage, Rgba, RgbaImage,
+};
 
 /// WebP Image format decoder.
 ///
@@ -12,6 +14,7 @@ use crate::{AnimationDecoder, ColorType, Delay, Frame, Frames, RgbImage, Rgba, R
 pub struct WebPDecoder<R> {
     inner: image_webp::WebPDecoder<R>,
     orientation: Option<Orientation>,
+    limits: Limits,
 }
 
 impl<R: BufRead + Seek> WebPDecoder<R> {
@@ -20,6 +23,7 @@ impl<R: BufRead + Seek> WebPDecoder<R> {
         Ok(Self {
             inner: image_webp::WebPDecoder::new(r).map_err(ImageError::from_webp_decode)?,
             orientation: None,
+            limits: Limits::no_limits(),
         })
     }
 
@@ -89,6 +93,18 @@ impl<R: BufRead + Seek> ImageDecoder for WebPDecoder<R> {
         }
         Ok(self.orientation.unwrap())
     }
+
+    fn set_limits(&mut self, limits: Limits) -> ImageResult<()> {
+        limits.check_support(&crate::LimitSupport::default())?;
+        let (width, height) = self.dimensions();
+        limits.check_dimensions(width, height)?;
+        if let Some(max_alloc) = limits.max_alloc {
+            let max_alloc = usize::try_from(max_alloc).unwrap_or(usize::MAX);
+            self.inner.set_memory_limit(max_alloc);
+        }
+        self.limits = limits;
+        Ok(())
+    }
 }
 
 impl<'a, R: 'a + BufRead + Seek> AnimationDecoder<'a> for WebPDecoder<R> {
@@ -107,6 +123,14 @@ impl<'a, R: 'a + BufRead + Seek> AnimationDecoder<'a> for WebPDecoder<R> {
                 self.current += 1;
                 let (width, height) = self.decoder.inner.dimensions();
 
+                // Both the canvas kept by the decoder and the returned frame.
+                let mut limits = self.decoder.limits.clone();
+                for _ in 0..2 {
+                    if let Err(err) = limits.reserve_buffer(width, height, ColorType::Rgba8) {
+                        return Some(Err(err));
+                    }
+                }
+
                 let (img, delay) = if self.decoder.inner.has_alpha() {
                     let mut img = RgbaImage::new(width, height);
                     match self.decoder.inner.read_frame(&mut img) {
-- 
2.43.0


From a1993d569e8b7122862124a4d6cf6191721bb1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 09/38] fix: do not keep stale buffer contents for GIF indices
 outside the palette

---
 src/codecs/gif.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index f67a161..75c71c1 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -153,7 +153,9 @@ impl<R: BufRead + Seek> ImageDecoder for GifDecoder<R> {
             for b in blank_top {
                 *b = 0;
             }
-            // fill the middle section with the frame data
+            // fill the middle section with the frame data; the reader skips
+            // pixels whose index is not in the palette
+            buf.fill(0);
             self.reader
                 .read_into_buffer(buf)
                 .map_err(ImageError::from_decoding)?;
-- 
2.43.0


From b2b0b028d0d1d1b70bfd60ef98c054dd48c1e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 10/38] fix: do not keep stale buffer contents for the missing
 part of a JPEG image

---
 src/codecs/jpeg/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codecs/jpeg/decoder.rs b/src/codecs/jpeg/decoder.rs
index b98d247..8233b55 100644
--- a/src/codecs/jpeg/decoder.rs
+++ b/src/codecs/jpeg/decoder.rs
@@ -117,6 +117,9 @@ impl<R: BufRead + Seek> ImageDecoder for JpegDecoder<R> {
             )));
         }
 
+        // The part missing from a damaged image is left untouched by the decoder
+        buf.fill(0);
+
         let mut decoder = new_zune_decoder(&self.input, self.orig_color_space, self.limits);
         decoder.decode_into(buf).map_err(ImageError::from_jpeg)?;
         Ok(())
-- 
2.43.0


From 7e96fccfb10f58346fbbf3dc26946f22a4c9f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 11/38] fix: ignore the color map of TGA images that are not
 color mapped

The map may be present in a true-color file, whose pixels have a different
size: the output buffer was then only partly written, or not at all.
---
 src/codecs/tga/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 9674776..c4bb11d 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -121,7 +121,7 @@ impl<R: Read> TgaDecoder<R> {
 
         let num_alpha_bits = self.header.image_desc & ALPHA_BIT_MASK;
 
-        let other_channel_bits = if self.header.map_type != 0 {
+        let other_channel_bits = if self.image_type.is_color_mapped() {
             self.header.map_entry_size
         } else {
             if num_alpha_bits > self.header.pixel_depth {
-- 
2.43.0


From 269f735e811013be770916e96583e6ccafc54796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 12/38] fix: do not panic on WebP frames in a file without the
 animation flag

---
 src/codecs/webp/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/webp/decoder.rs b/src/codecs/webp/decoder.rs
index 3acb6f8..6832082 100644
--- a/src/codecs/webp/decoder.rs
+++ b/src/codecs/webp/decoder.rs
@@ -117,7 +117,9 @@ impl<'a, R: 'a + BufRead + Seek> AnimationDecoder<'a> for WebPDecoder<R> {
             type Item = ImageResult<Frame>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                if self.current == self.decoder.inner.num_frames() {
+                if !self.decoder.has_animation()
+                    || self.current == self.decoder.inner.num_frames()
+                {
                     return None;
                 }
                 self.current += 1;
-- 
2.43.0


From 46ef0a27ec7d67b0410ada3a5ece8baa414e7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 13/38] fix: handle short writes in the TIFF encoder

---
 src/codecs/tiff.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 7932589..4f841b6 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -304,6 +304,28 @@ pub struct TiffEncoder<W> {
     w: W,
 }
 
+/// Hands every buffer to the inner writer completely.
+///
+/// The `tiff` crate does not retry short or interrupted writes of uncompressed strips.
+struct WholeWriter<W>(W);
+
+impl<W: Write> Write for WholeWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.0.write_all(buf)?;
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl<W: Seek> Seek for WholeWriter<W> {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
 fn cmyk_to_rgb(cmyk: &[u8]) -> [u8; 3] {
     let c = f32::from(cmyk[0]);
     let m = f32::from(cmyk[1]);
@@ -359,8 +381,8 @@ impl<W: Write + Seek> TiffEncoder<W> {
             buf.len(),
         );
 
-        let mut encoder =
-            tiff::encoder::TiffEncoder::new(self.w).map_err(ImageError::from_tiff_encode)?;
+        let mut encoder = tiff::encoder::TiffEncoder::new(WholeWriter(self.w))
+            .map_err(ImageError::from_tiff_encode)?;
         match color_type {
             ExtendedColorType::L8 => {
                 encoder.write_image::<tiff::encoder::colortype::Gray8>(width, height, buf)
-- 
2.43.0


From 6634aa540346da3547079acaf70af2b46d1e8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 14/38] fix: report errors while flushing saved image files

---
 src/image_reader/free_functions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 57fbb72..acb09a7 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufWriter, Seek};
+use std::io::{BufRead, BufWriter, Seek, Write};
 use std::iter;
 use std::path::Path;
 
@@ -48,7 +48,10 @@ pub(crate) fn save_buffer_with_format_impl(
     format: ImageFormat,
 ) -> ImageResult<()> {
     let buffered_file_write = &mut BufWriter::new(File::create(path)?); // always seekable
-    write_buffer_impl(buffered_file_write, buf, width, height, color, format)
+    write_buffer_impl(buffered_file_write, buf, width, height, color, format)?;
+    // Dropping the writer would ignore errors while writing out its buffer.
+    buffered_file_write.flush()?;
+    Ok(())
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 8ee66aa398f061734579b8062ed9a9f1a693873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 15/38] fix: report errors while writing the end of a PNG file

---
 src/codecs/png.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index de6cfbd..aff0fe1 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -626,7 +626,9 @@ impl<W: Write> PngEncoder<W> {
             .map_err(|e| ImageError::IoError(e.into()))?;
         writer
             .write_image_data(data)
-            .map_err(|e| ImageError::IoError(e.into()))
+            .map_err(|e| ImageError::IoError(e.into()))?;
+        // Dropping the writer would ignore errors while writing the end of the file.
+        writer.finish().map_err(|e| ImageError::IoError(e.into()))
     }
 }
 
-- 
2.43.0


From f0a5310d426c588cb3aaee280216f8d80adc7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 16/38] fix: do not mix bits of a previous image into a JPEG
 image

---
 src/codecs/jpeg/encoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d61951a..d8103a1 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -213,6 +213,12 @@ impl<W: Write> BitWriter<W> {
         Ok(())
     }
 
+    /// Forget all bits that have not been written as part of a full byte.
+    fn reset(&mut self) {
+        self.accumulator = 0;
+        self.nbits = 0;
+    }
+
     fn pad_byte(&mut self) -> io::Result<()> {
         self.write_bits(0x7F, 7)
     }
@@ -492,6 +498,8 @@ impl<W: Write> JpegEncoder<W> {
         let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
+        // Bits left over from a previous image must not end up in this one.
+        self.writer.reset();
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From ed2d61ee8e2e8bea297badbf5612b98f575f04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 17/38] fix: fail instead of panicking or continuing after an
 error in GifEncoder

---
 src/codecs/gif.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 75c71c1..61dedfc 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -475,10 +475,11 @@ impl<W: Write> GifEncoder<W> {
 
     /// Set the repeat behaviour of the encoded GIF
     pub fn set_repeat(&mut self, repeat: Repeat) -> ImageResult<()> {
-        if let Some(ref mut encoder) = self.gif_encoder {
+        if let Some(mut encoder) = self.gif_encoder.take() {
             encoder
                 .set_repeat(repeat.to_gif_enum())
                 .map_err(ImageError::from_encoding)?;
+            self.gif_encoder = Some(encoder);
         }
         self.repeat = Some(repeat);
         Ok(())
@@ -575,11 +576,15 @@ impl<W: Write> GifEncoder<W> {
     }
 
     pub(crate) fn encode_gif(&mut self, mut frame: Frame) -> ImageResult<()> {
-        let gif_encoder;
-        if let Some(ref mut encoder) = self.gif_encoder {
+        // The encoder is only put back once the frame is complete: nothing useful can be written
+        // after a frame that has been written in part.
+        let mut gif_encoder;
+        if let Some(encoder) = self.gif_encoder.take() {
             gif_encoder = encoder;
         } else {
-            let writer = self.w.take().unwrap();
+            let writer = self.w.take().ok_or_else(|| {
+                ImageError::Parameter(ParameterError::from_kind(ParameterErrorKind::FailedAlready))
+            })?;
             let mut encoder = gif::Encoder::new(writer, frame.width, frame.height, &[])
                 .map_err(ImageError::from_encoding)?;
             if let Some(ref repeat) = self.repeat {
@@ -587,15 +592,16 @@ impl<W: Write> GifEncoder<W> {
                     .set_repeat(repeat.to_gif_enum())
                     .map_err(ImageError::from_encoding)?;
             }
-            self.gif_encoder = Some(encoder);
-            gif_encoder = self.gif_encoder.as_mut().unwrap();
+            gif_encoder = encoder;
         }
 
         frame.dispose = DisposalMethod::Background;
 
         gif_encoder
             .write_frame(&frame)
-            .map_err(ImageError::from_encoding)
+            .map_err(ImageError::from_encoding)?;
+        self.gif_encoder = Some(gif_encoder);
+        Ok(())
     }
 }
 
-- 
2.43.0


From f7313b22170991b602e0a4e9fb8c7a77908a34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 18/38] fix: report errors while writing the end of a GIF file

---
 src/codecs/gif.rs                  | 8 ++++++++
 src/dynimage.rs                    | 2 +-
 src/image_reader/free_functions.rs | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 61dedfc..357450b 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -575,6 +575,14 @@ impl<W: Write> GifEncoder<W> {
         })
     }
 
+    /// Writes the end of the file, reporting the errors that dropping the encoder would ignore.
+    pub(crate) fn finish(self) -> ImageResult<()> {
+        if let Some(encoder) = self.gif_encoder {
+            encoder.into_inner()?;
+        }
+        Ok(())
+    }
+
     pub(crate) fn encode_gif(&mut self, mut frame: Frame) -> ImageResult<()> {
         // The encoder is only put back once the frame is complete: nothing useful can be written
         // after a frame that has been written in part.
diff --git a/src/dynimage.rs b/src/dynimage.rs
index 32da8c7..a013238 100644
--- a/src/dynimage.rs
+++ b/src/dynimage.rs
@@ -1002,7 +1002,7 @@ impl DynamicImage {
             ImageFormat::Gif => {
                 let mut g = gif::GifEncoder::new(w);
                 g.encode_frame(crate::animation::Frame::new(self.to_rgba8()))?;
-                Ok(())
+                g.finish()
             }
 
             format => write_buffer_with_format(w, bytes, width, height, color, format),
diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index acb09a7..8e01290 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -78,7 +78,11 @@ pub(crate) fn write_buffer_impl<W: std::io::Write + Seek>(
             pnm::PnmEncoder::new(buffered_write).write_image(buf, width, height, color)
         }
         #[cfg(feature = "gif")]
-        ImageFormat::Gif => gif::GifEncoder::new(buffered_write).encode(buf, width, height, color),
+        ImageFormat::Gif => {
+            let mut encoder = gif::GifEncoder::new(buffered_write);
+            encoder.encode(buf, width, height, color)?;
+            encoder.finish()
+        }
         #[cfg(feature = "ico")]
         ImageFormat::Ico => {
             ico::IcoEncoder::new(buffered_write).write_image(buf, width, height, color)
-- 
2.43.0


From 4fcc269c3b5685cf7ebb279fa84bd2b5c5cc0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 19/38] fix: check sample values against the maximum of a
 chosen PNM header

---
 src/codecs/pnm/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b6cc18..4b2c09e 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -448,7 +448,8 @@ impl<'a> CheckedDimensions<'a> {
 impl<'a> CheckedHeaderColor<'a> {
     fn check_sample_values(self, image: FlatSamples<'a>) -> ImageResult<CheckedHeader<'a>> {
         let header_maxval = match self.dimensions.unchecked.header.decoded {
-            HeaderRecord::Bitmap(_) => 1,
+            // Bitmaps only store whether a sample is zero.
+            HeaderRecord::Bitmap(_) => u32::MAX,
             HeaderRecord::Graymap(GraymapHeader { maxwhite, .. }) => maxwhite,
             HeaderRecord::Pixmap(PixmapHeader { maxval, .. }) => maxval,
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => maxval,
@@ -577,8 +578,8 @@ impl<'a> FlatSamples<'a> {
 
     fn all_smaller(&self, max_val: u32) -> bool {
         match *self {
-            FlatSamples::U8(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
-            FlatSamples::U16(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
+            FlatSamples::U8(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
+            FlatSamples::U16(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
         }
     }
 
-- 
2.43.0


From 0c6622f21e0d8f0d8b6f889ef5789febc0a67ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 20/38] fix: write samples of plain PBM images as bits

---
 src/codecs/pnm/encoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b2c09e..8a1fef6 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -70,6 +70,9 @@ enum TupleEncoding<'a> {
         samples: FlatSamples<'a>,
         width: u32,
     },
+    PbmAscii {
+        samples: FlatSamples<'a>,
+    },
     Ascii {
         samples: FlatSamples<'a>,
     },
@@ -597,7 +600,7 @@ impl<'a> FlatSamples<'a> {
             HeaderRecord::Bitmap(BitmapHeader {
                 encoding: SampleEncoding::Ascii,
                 ..
-            }) => TupleEncoding::Ascii { samples: *self },
+            }) => TupleEncoding::PbmAscii { samples: *self },
 
             HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
 
@@ -650,6 +653,18 @@ impl TupleEncoding<'_> {
                 .write_pbm_bits(samples, width)
                 .map_err(ImageError::IoError),
 
+            // Black pixels are encoded as 1s
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U8(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U16(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
             } => writer.write_all(samples).map_err(ImageError::IoError),
-- 
2.43.0


From 73141258f203963f824eb1266fa27e1cf7eb8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 21/38] fix: write binary PNM samples with the width the chosen
 header asks for

---
 src/codecs/pnm/encoder.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 8a1fef6..7a296df 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -78,6 +78,8 @@ enum TupleEncoding<'a> {
     },
     Bytes {
         samples: FlatSamples<'a>,
+        /// Whether each sample takes two bytes, which the maximum value in the header decides.
+        wide: bool,
     },
 }
 
@@ -602,7 +604,10 @@ impl<'a> FlatSamples<'a> {
                 ..
             }) => TupleEncoding::PbmAscii { samples: *self },
 
-            HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
+            HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Ascii,
@@ -615,12 +620,17 @@ impl<'a> FlatSamples<'a> {
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Binary,
+                maxwhite: maxval,
                 ..
             })
             | HeaderRecord::Pixmap(PixmapHeader {
                 encoding: SampleEncoding::Binary,
+                maxval,
                 ..
-            }) => TupleEncoding::Bytes { samples: *self },
+            }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
         }
     }
 }
@@ -667,9 +677,26 @@ impl TupleEncoding<'_> {
 
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
+                wide: false,
             } => writer.write_all(samples).map_err(ImageError::IoError),
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U8(samples),
+                wide: true,
+            } => samples.iter().try_for_each(|&sample| {
+                writer
+                    .write_u16::<BigEndian>(sample.into())
+                    .map_err(ImageError::IoError)
+            }),
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U16(samples),
+                wide: false,
+            } => samples.iter().try_for_each(|&sample| {
+                // The samples do not exceed the maximum value.
+                writer.write_u8(sample as u8).map_err(ImageError::IoError)
+            }),
             TupleEncoding::Bytes {
                 samples: FlatSamples::U16(samples),
+                wide: true,
             } => samples.iter().try_for_each(|&sample| {
                 writer
                     .write_u16::<BigEndian>(sample)
-- 
2.43.0


From 85f31d34bff90ddcf1bf8b729a4c2b9884778716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 22/38] fix: read wide samples of PAM images without a tuple
 type

---
 src/codecs/pnm/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 7da49de..74bf669 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -845,14 +845,17 @@ impl DecodableImageHeader for ArbitraryHeader {
     fn tuple_type(&self) -> ImageResult<TupleType> {
         match self.tupltype {
             _ if self.maxval == 0 => Err(DecoderError::MaxvalZero.into()),
-            None if self.depth == 1 => Ok(TupleType::GrayU8),
+            None if self.maxval > 0xFFFF => Err(DecoderError::MaxvalTooBig(self.maxval).into()),
+            None if self.depth == 1 && self.maxval <= 0xFF => Ok(TupleType::GrayU8),
+            None if self.depth == 1 => Ok(TupleType::GrayU16),
             None if self.depth == 2 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Pnm.into(),
                     UnsupportedErrorKind::Color(ExtendedColorType::La8),
                 ),
             )),
-            None if self.depth == 3 => Ok(TupleType::RGBU8),
+            None if self.depth == 3 && self.maxval <= 0xFF => Ok(TupleType::RGBU8),
+            None if self.depth == 3 => Ok(TupleType::RGBU16),
             None if self.depth == 4 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Pnm.into(),
-- 
2.43.0


From 7035259df125f9d3605ec2307d46d57f4d4c9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 23/38] fix: keep the orientation of a boxed decoder

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index a38fee9..1045423 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -749,6 +749,9 @@ impl<T: ?Sized + ImageDecoder> ImageDecoder for Box<T> {
     fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> {
         (**self).exif_metadata()
     }
+    fn orientation(&mut self) -> ImageResult<Orientation> {
+        (**self).orientation()
+    }
     fn total_bytes(&self) -> u64 {
         (**self).total_bytes()
     }
-- 
2.43.0


From 3c085c5555135fe20884b8fc943645e2c030bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 24/38] fix: do not lose the ICC profile of small TIFF images
 when limits are set

---
 src/codecs/tiff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 4f841b6..2d5e1a7 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -234,8 +234,8 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
         let max_intermediate_alloc = max_alloc.saturating_sub(self.total_bytes_buffer());
 
         let mut tiff_limits: tiff::decoder::Limits = Default::default();
-        tiff_limits.decoding_buffer_size =
-            usize::try_from(max_alloc - max_intermediate_alloc).unwrap_or(usize::MAX);
+        // Not only the image, tag values such as the ICC profile are limited by this too.
+        tiff_limits.decoding_buffer_size = usize::try_from(max_alloc).unwrap_or(usize::MAX);
         tiff_limits.intermediate_buffer_size =
             usize::try_from(max_intermediate_alloc).unwrap_or(usize::MAX);
         tiff_limits.ifd_value_size = tiff_limits.intermediate_buffer_size;
-- 
2.43.0


From 531910a35262b034622200f728660fc6e42f8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 25/38] fix: do not read wrong pixels after a failed rectangle
 read of a farbfeld image

---
 src/codecs/farbfeld.rs | 54 ++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/codecs/farbfeld.rs b/src/codecs/farbfeld.rs
index 32fdbc9..b8494a1 100644
--- a/src/codecs/farbfeld.rs
+++ b/src/codecs/farbfeld.rs
@@ -33,6 +33,8 @@ pub struct FarbfeldReader<R: Read> {
     /// Relative to the start of the pixel data
     current_offset: u64,
     cached_byte: Option<u8>,
+    /// Number of bytes that a failed read took from `inner` without delivering them
+    misread: u64,
 }
 
 impl<R: Read> FarbfeldReader<R> {
@@ -62,6 +64,7 @@ impl<R: Read> FarbfeldReader<R> {
             inner: buffered_read,
             current_offset: 0,
             cached_byte: None,
+            misread: 0,
         };
 
         if crate::utils::check_dimension_overflow(
@@ -87,6 +90,10 @@ impl<R: Read> FarbfeldReader<R> {
 
 impl<R: Read> Read for FarbfeldReader<R> {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
+        if self.misread != 0 {
+            return Err(previous_failure());
+        }
+
         let mut bytes_written = 0;
         if let Some(byte) = self.cached_byte.take() {
             buf[0] = byte;
@@ -96,12 +103,12 @@ impl<R: Read> Read for FarbfeldReader<R> {
         }
 
         if buf.len() == 1 {
-            buf[0] = cache_byte(&mut self.inner, &mut self.cached_byte)?;
+            buf[0] = cache_byte(&mut self.inner, &mut self.cached_byte, &mut self.misread)?;
             bytes_written += 1;
             self.current_offset += 1;
         } else {
             for channel_out in buf.chunks_exact_mut(2) {
-                consume_channel(&mut self.inner, channel_out)?;
+                consume_channel(&mut self.inner, channel_out, &mut self.misread)?;
                 bytes_written += 2;
                 self.current_offset += 2;
             }
@@ -146,7 +153,9 @@ impl<R: Read + Seek> Seek for FarbfeldReader<R> {
             })?;
 
         // TODO: convert to seek_relative() once that gets stabilised
-        self.inner.seek(SeekFrom::Current(offset_from_current))?;
+        self.inner
+            .seek(SeekFrom::Current(offset_from_current - self.misread as i64))?;
+        self.misread = 0;
         self.current_offset = if offset_from_current < 0 {
             original_offset.checked_sub(offset_from_current.wrapping_neg() as u64)
         } else {
@@ -156,7 +165,7 @@ impl<R: Read + Seek> Seek for FarbfeldReader<R> {
 
         if self.current_offset < end_offset && self.current_offset % 2 == 1 {
             let curr = self.inner.seek(SeekFrom::Current(-1))?;
-            cache_byte(&mut self.inner, &mut self.cached_byte)?;
+            cache_byte(&mut self.inner, &mut self.cached_byte, &mut self.misread)?;
             self.inner.seek(SeekFrom::Start(curr))?;
         } else {
             self.cached_byte = None;
@@ -166,17 +175,32 @@ impl<R: Read + Seek> Seek for FarbfeldReader<R> {
     }
 }
 
-fn consume_channel<R: Read>(from: &mut R, mut to: &mut [u8]) -> io::Result<()> {
+fn previous_failure() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Other,
+        "the position in the stream is not known after a failed read",
+    )
+}
+
+/// Reads one channel. After a failure `misread` holds the number of bytes that were consumed.
+fn consume_channel<R: Read>(from: &mut R, mut to: &mut [u8], misread: &mut u64) -> io::Result<()> {
     let mut ibuf = [0u8; 2];
-    from.read_exact(&mut ibuf)?;
+    from.read_exact(&mut ibuf[..1])?;
+    *misread = 1;
+    from.read_exact(&mut ibuf[1..])?;
+    *misread = 0;
     to.write_all(&u16::from_be_bytes(ibuf).to_ne_bytes())?;
 
     Ok(())
 }
 
-fn cache_byte<R: Read>(from: &mut R, cached_byte: &mut Option<u8>) -> io::Result<u8> {
+fn cache_byte<R: Read>(
+    from: &mut R,
+    cached_byte: &mut Option<u8>,
+    misread: &mut u64,
+) -> io::Result<u8> {
     let mut obuf = [0u8; 2];
-    consume_channel(from, &mut obuf)?;
+    consume_channel(from, &mut obuf, misread)?;
     *cached_byte = Some(obuf[1]);
     Ok(obuf[0])
 }
@@ -206,6 +230,9 @@ impl<R: Read> ImageDecoder for FarbfeldDecoder<R> {
 
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
         assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
+        if self.reader.current_offset != 0 {
+            return Err(ImageError::IoError(previous_failure()));
+        }
         self.reader.read_exact(buf)?;
         Ok(())
     }
@@ -227,8 +254,9 @@ impl<R: Read + Seek> ImageDecoderRect for FarbfeldDecoder<R> {
     ) -> ImageResult<()> {
         // A "scanline" (defined as "shortest non-caching read" in the doc) is just one channel in this case
 
-        let start = self.reader.stream_position()?;
-        image::load_rect(
+        // A previous failure may have left the reader anywhere.
+        self.reader.seek(SeekFrom::Start(0))?;
+        let result = image::load_rect(
             x,
             y,
             width,
@@ -239,9 +267,9 @@ impl<R: Read + Seek> ImageDecoderRect for FarbfeldDecoder<R> {
             2,
             |s, scanline| s.reader.seek(SeekFrom::Start(scanline * 2)).map(|_| ()),
             |s, buf| s.reader.read_exact(buf),
-        )?;
-        self.reader.seek(SeekFrom::Start(start))?;
-        Ok(())
+        );
+        self.reader.seek(SeekFrom::Start(0))?;
+        result
     }
 }
 
-- 
2.43.0


From 120c4c5185d562113bc078d5e045d3ff7e2ebb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 26/38] fix: restore the cleared canvas after an APNG frame
 disposed to background

A frame with the disposal method 'previous' has to leave the canvas as it
was when the frame was drawn. When the frame before it was disposed of to
the background, the contents from before the clearing came back instead.
---
 src/codecs/png.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index aff0fe1..f4e9377 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -320,7 +320,6 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                 previous.clone_from(current);
             }
             DisposeOp::Background => {
-                previous.clone_from(current);
                 if let Some((px, py, width, height)) = self.dispose_region {
                     let mut region_current = current.sub_image(px, py, width, height);
 
@@ -336,6 +335,9 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                         *pixel = Rgba::from([0, 0, 0, 0]);
                     });
                 }
+                // A later frame that is disposed of to the previous contents is
+                // replaced by the canvas it was drawn on, which is the cleared one.
+                previous.clone_from(current);
             }
             DisposeOp::Previous => {
                 let (px, py, width, height) = self
-- 
2.43.0


From 74d2d3d24413da1e82e5612dcd03fcf5b1506340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 27/38] fix: keep APNG frame disposal within the memory limit

Clearing the region of a frame collected a list with twelve bytes for every
pixel of it, which was not counted towards the limit.
---
 src/codecs/png.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index f4e9377..16e19e1 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -19,7 +19,7 @@ use crate::error::{
 };
 use crate::image::{AnimationDecoder, ImageDecoder, ImageEncoder, ImageFormat};
 use crate::{DynamicImage, GenericImage, ImageBuffer, Luma, LumaA, Rgb, Rgba, RgbaImage};
-use crate::{GenericImageView, Limits};
+use crate::Limits;
 
 // http://www.w3.org/TR/PNG-Structure.html
 // The first eight bytes of a PNG file always contain the following (decimal) values:
@@ -321,13 +321,10 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
             }
             DisposeOp::Background => {
                 if let Some((px, py, width, height)) = self.dispose_region {
-                    let mut region_current = current.sub_image(px, py, width, height);
-
-                    // FIXME: This is a workaround for the fact that `pixels_mut` is not implemented
-                    let pixels: Vec<_> = region_current.pixels().collect();
-
-                    for (x, y, _) in &pixels {
-                        region_current.put_pixel(*x, *y, Rgba::from([0, 0, 0, 0]));
+                    for y in py..py + height {
+                        for x in px..px + width {
+                            current.put_pixel(x, y, Rgba::from([0, 0, 0, 0]));
+                        }
                     }
                 } else {
                     // The first frame is always a background frame.
-- 
2.43.0


From 708b186085b33ce376c86b91d923734c285f2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 28/38] fix: decode HDR images without a second copy of the
 pixels

The copy was as large as the output and not counted towards the memory
limit.
---
 src/codecs/hdr/decoder.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 189e561..8441b09 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -305,14 +305,11 @@ impl<R: Read> ImageDecoder for HdrDecoder<R> {
     fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
         assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
 
-        let mut img = vec![Rgb([0.0, 0.0, 0.0]); self.width as usize * self.height as usize];
-        self.read_image_transform(|pix| pix.to_hdr(), &mut img[..])?;
-
-        for (i, Rgb(data)) in img.into_iter().enumerate() {
-            buf[(i * 12)..][..12].copy_from_slice(bytemuck::cast_slice(&data));
-        }
-
-        Ok(())
+        // Convert row by row, without a copy of the whole image.
+        self.read_image_transform(
+            |pix| bytemuck::cast::<[f32; 3], [u8; 12]>(pix.to_hdr().0),
+            bytemuck::cast_slice_mut::<u8, [u8; 12]>(buf),
+        )
     }
 
     fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> {
-- 
2.43.0


From b1ab8b980c57f50d9543e0734d6df5e6029d0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 29/38] fix: count the intermediate buffers of TGA images
 towards the memory limit

Reading an encoded or color mapped image allocates up to two more buffers
of the size of the image, and a last packet that is too long doubled one of
them.
---
 src/codecs/tga/decoder.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index c4bb11d..eb245e3 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -5,6 +5,7 @@ use crate::{
         ImageError, ImageResult, LimitError, LimitErrorKind, UnsupportedError, UnsupportedErrorKind,
     },
     image::{ImageDecoder, ImageFormat},
+    Limits,
 };
 use byteorder_lite::ReadBytesExt;
 use std::io::{self, Read};
@@ -57,6 +58,7 @@ pub struct TgaDecoder<R> {
 
     header: Header,
     color_map: Option<ColorMap>,
+    limits: Limits,
 }
 
 impl<R: Read> TgaDecoder<R> {
@@ -76,6 +78,7 @@ impl<R: Read> TgaDecoder<R> {
 
             header: Header::default(),
             color_map: None,
+            limits: Limits::no_limits(),
         };
         decoder.read_metadata()?;
         Ok(decoder)
@@ -242,14 +245,16 @@ impl<R: Read> TgaDecoder<R> {
                 self.r.read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
+                let num_repeated_bytes = repeat_count * self.bytes_per_pixel;
                 let data = repeat_buf
                     .iter()
                     .cycle()
-                    .take(repeat_count * self.bytes_per_pixel);
+                    .take(num_repeated_bytes.min(num_bytes - pixel_data.len()));
                 pixel_data.extend(data);
             } else {
                 // not set, so `run_packet+1` is the number of non-encoded pixels
                 let num_raw_bytes = (run_packet + 1) as usize * self.bytes_per_pixel;
+                let num_raw_bytes = num_raw_bytes.min(num_bytes - pixel_data.len());
                 self.r
                     .by_ref()
                     .take(num_raw_bytes as u64)
@@ -257,13 +262,9 @@ impl<R: Read> TgaDecoder<R> {
             }
         }
 
-        if pixel_data.len() > num_bytes {
-            // FIXME: the last packet contained more data than we asked for!
-            // This is at least a warning. We truncate the data since some methods rely on the
-            // length to be accurate in the success case.
-            pixel_data.truncate(num_bytes);
-        }
-
+        // FIXME: the last packet may have contained more data than we asked for!
+        // This is at least a warning. We ignored the data since some methods rely on the
+        // length to be accurate in the success case.
         Ok(pixel_data)
     }
 
@@ -346,9 +347,28 @@ impl<R: Read> ImageDecoder for TgaDecoder<R> {
             .unwrap_or_else(|| self.color_type().into())
     }
 
+    fn set_limits(&mut self, limits: Limits) -> ImageResult<()> {
+        limits.check_support(&crate::LimitSupport::default())?;
+        limits.check_dimensions(self.width as u32, self.height as u32)?;
+        self.limits = limits;
+        Ok(())
+    }
+
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
         assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
 
+        // Count the intermediate buffers that are about to be allocated: the pixel data of encoded
+        // images and of those that need more bytes than the output, and the expanded color map.
+        let raw_bytes = self.width * self.height * self.bytes_per_pixel;
+        if self.image_type.is_encoded()
+            || self.bytes_per_pixel > usize::from(self.color_type.bytes_per_pixel())
+        {
+            self.limits.reserve_usize(raw_bytes)?;
+        }
+        if self.image_type.is_color_mapped() {
+            self.limits.reserve_usize(buf.len())?;
+        }
+
         // In indexed images, we might need more bytes than pixels to read them. That's nonsensical
         // to encode but we'll not want to crash.
         let mut fallback_buf = vec![];
-- 
2.43.0


From 9e866e69f68d03d6ddf46fb43616fd9247a6036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 30/38] fix: do not panic when reading the indices of a BMP
 image that is not 8-bit indexed

---
 src/codecs/bmp/decoder.rs | 42 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 109470c..a1e1525 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -292,6 +292,17 @@ where
     Ok(())
 }
 
+/// Set a pixel to the color at an index of the palette, or to the index itself if it has a single
+/// channel.
+#[inline(always)]
+fn set_pixel(pixel: &mut [u8], palette: &[[u8; 3]], idx: u8) {
+    if let [index] = pixel {
+        *index = idx;
+    } else {
+        pixel[..3].copy_from_slice(&palette[usize::from(idx)]);
+    }
+}
+
 fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
     pixel_iter: &mut ChunksMut<u8>,
     palette: &[[u8; 3]],
@@ -300,10 +311,7 @@ fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
 ) -> bool {
     for idx in indices.take(n_pixels) {
         if let Some(pixel) = pixel_iter.next() {
-            let rgb = palette[*idx as usize];
-            pixel[0] = rgb[0];
-            pixel[1] = rgb[1];
-            pixel[2] = rgb[2];
+            set_pixel(pixel, palette, *idx);
         } else {
             return false;
         }
@@ -324,10 +332,7 @@ fn set_4bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -354,10 +359,7 @@ fn set_2bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -381,10 +383,7 @@ fn set_1bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
         let mut bit = 0x80;
         loop {
             if let Some(pixel) = pixel_iter.next() {
-                let rgb = palette[usize::from((idx & bit) != 0)];
-                pixel[0] = rgb[0];
-                pixel[1] = rgb[1];
-                pixel[2] = rgb[2];
+                set_pixel(pixel, palette, u8::from((idx & bit) != 0));
             } else {
                 return;
             }
@@ -923,8 +922,13 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         self.palette.as_ref().map(|vec| &vec[..])
     }
 
+    /// Only images with a palette can be read as indices.
+    fn reads_indices(&self) -> bool {
+        self.indexed_color && self.palette.is_some()
+    }
+
     fn num_channels(&self) -> usize {
-        if self.indexed_color {
+        if self.reads_indices() {
             1
         } else if self.add_alpha_channel {
             4
@@ -970,7 +974,7 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
             self.top_down,
             |row| {
                 reader.read_exact(&mut indices)?;
-                if skip_palette {
+                if skip_palette && bit_count == 8 {
                     row.clone_from_slice(&indices[0..width]);
                 } else {
                     let mut pixel_iter = row.chunks_mut(num_channels);
@@ -1330,7 +1334,7 @@ impl<R: BufRead + Seek> ImageDecoder for BmpDecoder<R> {
     }
 
     fn color_type(&self) -> ColorType {
-        if self.indexed_color {
+        if self.reads_indices() {
             ColorType::L8
         } else if self.add_alpha_channel {
             ColorType::Rgba8
-- 
2.43.0


From bb214e7c6d917ce7525cfa506d8c932cb935e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 31/38] fix: do not overflow on long chains of run-length
 markers in HDR images

---
 src/codecs/hdr/decoder.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 8441b09..a2116b3 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -423,15 +423,19 @@ fn decode_old_rle<R: Read>(r: &mut R, fb: Rgbe8Pixel, buf: &mut [Rgbe8Pixel]) ->
         x_off += {
             if let Some(rl) = rl_marker(pix) {
                 // rl_mult takes care of consecutive RL markers
-                let rl = rl * rl_mult;
-                rl_mult *= 256;
-                if x_off + rl <= width {
+                let rl = rl.saturating_mul(rl_mult);
+                rl_mult = rl_mult.saturating_mul(256);
+                if rl <= width - x_off {
                     // do run
                     for b in &mut buf[x_off..x_off + rl] {
                         *b = prev_pixel;
                     }
                 } else {
-                    return Err(DecoderError::WrongScanlineLength(x_off + rl, width).into());
+                    return Err(DecoderError::WrongScanlineLength(
+                        x_off.saturating_add(rl),
+                        width,
+                    )
+                    .into());
                 };
                 rl // value to increase x_off by
             } else {
-- 
2.43.0


From bad972cb9df0e1eeef49035c5ff9737b0b56e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:08 +0000
Subject: [PATCH 32/38] fix: do not panic when encoding a PBM image without
 columns

---
 src/codecs/pnm/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 7a296df..a10f571 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -546,6 +546,11 @@ impl SampleWriter<'_> {
     where
         V: Default + Eq + Copy,
     {
+        // An empty image has no scanlines
+        if width == 0 {
+            return self.0.flush();
+        }
+
         // The length of an encoded scanline
         let line_width = (width - 1) / 8 + 1;
 
-- 
2.43.0


From f657c7c8b68b4c36dac9114595e7f61b3cd09d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 33/38] fix: refuse to encode an empty OpenEXR image instead of
 panicking

---
 src/codecs/openexr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/codecs/openexr.rs b/src/codecs/openexr.rs
index 40a9875..168484b 100644
--- a/src/codecs/openexr.rs
+++ b/src/codecs/openexr.rs
@@ -22,7 +22,9 @@
 //!     - (chroma) subsampling not supported yet by the exr library
 use exr::prelude::*;
 
-use crate::error::{DecodingError, EncodingError, ImageFormatHint};
+use crate::error::{
+    DecodingError, EncodingError, ImageFormatHint, ParameterError, ParameterErrorKind,
+};
 use crate::{
     ColorType, ExtendedColorType, ImageDecoder, ImageEncoder, ImageError, ImageFormat, ImageResult,
 };
@@ -319,6 +321,13 @@ where
             buf.len(),
         );
 
+        // The format has no empty images.
+        if width == 0 || height == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         write_buffer(self.0, buf, width, height, color_type)
     }
 }
-- 
2.43.0


From d0f3516be0a0a56d2ef646331ae134ff0d0115ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:28 +0000
Subject: [PATCH 34/38] fix: set the alpha of run-length encoded BMP images
 inside ICO files

The pixels of an RLE bitmap are written to three channels, so in an ICO, which
is decoded with an alpha channel, alpha kept whatever the caller's buffer held.
---
 src/codecs/bmp/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index a1e1525..bc5efb3 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -1140,6 +1140,9 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         self.reader.seek(SeekFrom::Start(self.data_offset))?;
 
         let num_channels = self.num_channels();
+        if num_channels == 4 {
+            buf.chunks_exact_mut(4).for_each(|c| c[3] = 0xFF);
+        }
         let p = self.palette.as_ref().unwrap();
 
         // Handling deltas in the RLE scheme means that we need to manually
-- 
2.43.0


From ae77c652629ad674ab4d14d0af462f16eadf7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:27 +0000
Subject: [PATCH 35/38] fix: keep the exponent of HDR pixels within the range
 of the format

Values from 2^127 were stored as black or, when infinite, overflowed an
addition; values below 2^-129 were stored with a huge exponent.
---
 src/codecs/hdr/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9358cda..8140131 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -278,11 +278,12 @@ fn write_rgbe8<W: Write>(w: &mut W, v: Rgbe8Pixel) -> Result<()> {
 pub(crate) fn to_rgbe8(pix: Rgb<f32>) -> Rgbe8Pixel {
     let pix = pix.0;
     let mx = f32::max(pix[0], f32::max(pix[1], pix[2]));
-    if mx <= 0.0 {
+    // let (frac, exp) = mx.frexp(); // unstable yet
+    // The stored exponent is a byte with a bias of 128, larger values are saturated.
+    let exp = (mx.log2().floor() as i32).saturating_add(1).min(127);
+    if mx <= 0.0 || exp <= -128 {
         Rgbe8Pixel { c: [0, 0, 0], e: 0 }
     } else {
-        // let (frac, exp) = mx.frexp(); // unstable yet
-        let exp = mx.log2().floor() as i32 + 1;
         let mul = f32::powi(2.0, exp);
         let mut conv = [0u8; 3];
         for (cv, &sv) in conv.iter_mut().zip(pix.iter()) {
-- 
2.43.0


From 3193d3f54a3d4ef33ab5b92f7cce32d151341d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:27 +0000
Subject: [PATCH 36/38] fix: write HDR scanlines of 32768 pixels without
 run-length encoding

The width in the marker of a run-length encoded scanline is at most 32767,
so that such an image could not be read back.
---
 src/codecs/hdr/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 8140131..5a5bdda 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -70,7 +70,7 @@ impl<W: Write> HdrEncoder<W> {
         w.write_all(b"FORMAT=32-bit_rle_rgbe\n\n")?;
         w.write_all(format!("-Y {height} +X {width}\n").as_bytes())?;
 
-        if !(8..=32_768).contains(&width) {
+        if !(8..=32_767).contains(&width) {
             for pixel in flattened_rgbe_pixels {
                 write_rgbe8(w, pixel)?;
             }
-- 
2.43.0


From 8e49618b0e2796e1db2c16405d5776d3a2797dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:58 +0000
Subject: [PATCH 37/38] fix: expand the bits of rows of any width without
 overflow

---
 src/utils/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index f64834e..a7ed6d4 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -38,11 +38,12 @@ pub(crate) fn expand_bits(bit_depth: u8, row_size: u32, buf: &[u8]) -> Vec<u8> {
     // Note: this conversion assumes that the scanlines begin on byte boundaries
     let mask = (1u8 << bit_depth as usize) - 1;
     let scaling_factor = 255 / ((1 << bit_depth as usize) - 1);
-    let bit_width = row_size * u32::from(bit_depth);
+    let row_size = u64::from(row_size);
+    let bit_width = row_size * u64::from(bit_depth);
     let skip = if bit_width % 8 == 0 {
         0
     } else {
-        (8 - bit_width % 8) / u32::from(bit_depth)
+        (8 - bit_width % 8) / u64::from(bit_depth)
     };
     let row_len = row_size + skip;
     let mut p = Vec::new();
@@ -52,7 +53,7 @@ pub(crate) fn expand_bits(bit_depth: u8, row_size: u32, buf: &[u8]) -> Vec<u8> {
             let shift = 8 - bit_depth * shift_inv;
             // skip the pixels that can be neglected because scanlines should
             // start at byte boundaries
-            if i % (row_len as usize) < (row_size as usize) {
+            if i % row_len < row_size {
                 let pixel = (v & (mask << shift as usize)) >> shift as usize;
                 p.push(pixel * scaling_factor);
             }
-- 
2.43.0


From 08eac4d3d44485e15a3de5ccf5fd6ebfb8d00d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:01 +0000
Subject: [PATCH 38/38] fix: do not form slices over the missing chroma planes
 of monochrome AVIF images

---
 src/codecs/avif/decoder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 6d82d18..aa8bde8 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -360,12 +360,20 @@ impl<R: Read> ImageDecoder for AvifDecoder<R> {
             let ref_u = self.picture.plane(PlanarImageComponent::U);
             let ref_v = self.picture.plane(PlanarImageComponent::V);
 
+            // Monochrome pictures have no chroma planes, only null pointers in their place.
+            let (u_plane, v_plane): (&[u8], &[u8]) =
+                if self.picture.pixel_layout() == PixelLayout::I400 {
+                    (&[], &[])
+                } else {
+                    (ref_u.as_ref(), ref_v.as_ref())
+                };
+
             let image = YuvPlanarImage {
                 y_plane: ref_y.as_ref(),
                 y_stride: self.picture.stride(PlanarImageComponent::Y) as usize,
-                u_plane: ref_u.as_ref(),
+                u_plane,
                 u_stride: self.picture.stride(PlanarImageComponent::U) as usize,
-                v_plane: ref_v.as_ref(),
+                v_plane,
                 v_stride: self.picture.stride(PlanarImageComponent::V) as usize,
                 width: width as usize,
                 height: height as usize,
-- 
2.43.0

