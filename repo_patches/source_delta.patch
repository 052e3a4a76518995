From 448ffc81e1063dbc9cef0efbc90ea26f3b0c871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 01/86] fix: lossless JPEG decoder accepts every sample
 precision the encoder writes (2..16 bits)

The compressor and the DNG writer produce frames with 2 to 16 bits per sample,
but the decompressor refused anything below 10, so an 8 bit lossless DNG written
by dnglab could not be read back. T.81 allows 2-16 bits for lossless frames.
---
 rawler/src/decompressors/ljpeg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/ljpeg/mod.rs b/rawler/src/decompressors/ljpeg/mod.rs
index c1b9178..ee24283 100644
--- a/rawler/src/decompressors/ljpeg/mod.rs
+++ b/rawler/src/decompressors/ljpeg/mod.rs
@@ -194,7 +194,7 @@ impl<'a> LjpegDecompressor<'a> {
       if marker == m(Marker::SOF3) {
         // Start of the frame, giving us the basic info
         sof.parse_sof(&mut input)?;
-        if sof.precision > 16 || sof.precision < 10 {
+        if sof.precision > 16 || sof.precision < 2 {
           return Err(format!("ljpeg: sof.precision {}", sof.precision));
         }
       } else if marker == m(Marker::DHT) {
-- 
2.43.0


From 471ad323c89ab6545c551e0560d9cc72ac7a101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 02/86] fix: DNG decoder does not require a CFAPattern for
 monochrome (BlackIsZero) images

---
 rawler/src/decoders/dng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..cd8837b 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -258,8 +258,9 @@ impl<'a> DngDecoder<'a> {
       None
     };
 
-    let linear = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 34892;
-    let cfa = if linear { CFA::default() } else { self.get_cfa(raw)? };
+    // Only CFA images have a CFAPattern, LinearRaw and BlackIsZero (monochrome) don't.
+    let is_cfa = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 32803;
+    let cfa = if is_cfa { self.get_cfa(raw)? } else { CFA::default() };
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
-- 
2.43.0


From 590ce93dd5351d508409f4a70fb7e98947808c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 03/86] fix: DNG decoder shifts CFAPattern back by the active
 area origin (X-Trans)

---
 rawler/src/decoders/dng.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index cd8837b..49c8353 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -356,7 +356,8 @@ impl<'a> DngDecoder<'a> {
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      // Shift in the opposite direction as the DNG writer does.
+      Ok(cfa.shift((cfa.width - left % cfa.width) % cfa.width, (cfa.height - top % cfa.height) % cfa.height))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From 41c82b9fc53836ff7c8c845aced93a7ba6953c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 04/86] fix: DNG decoder shifts BlackLevel pattern back by the
 active area origin

---
 rawler/src/decoders/dng.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 49c8353..6900644 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -328,7 +328,14 @@ impl<'a> DngDecoder<'a> {
           log::warn!("File has BlackLevelRepeatDim tag but with invalid length: {}", value.len());
         }
       }
-      Ok(Some(BlackLevel::new(&levels, repeat.1, repeat.0, cpp)))
+      let blacklevel = BlackLevel::new(&levels, repeat.1, repeat.0, cpp);
+      // The repeat pattern is relative to ActiveArea, but we use (0, 0) as starting point.
+      if let Some(active_area) = self.get_active_area_borders(raw) {
+        let (w, h) = (blacklevel.width, blacklevel.height);
+        Ok(Some(blacklevel.shift((w - active_area[1] % w) % w, (h - active_area[0] % h) % h)))
+      } else {
+        Ok(Some(blacklevel))
+      }
     } else {
       Ok(None)
     }
-- 
2.43.0


From efb06886dc7e227ed8e65354b79339c1617529c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 05/86] fix: DNG CFARepeatPatternDim is written as rows,
 columns

---
 rawler/src/dng/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..512489f 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -284,7 +284,7 @@ where
         let cfa = config.cfa.shift(active_area.p.x, active_area.p.y);
         self
           .ifd_mut()
-          .add_tag(TiffCommonTag::CFARepeatPatternDim, [cfa.width as u16, cfa.height as u16]);
+          .add_tag(TiffCommonTag::CFARepeatPatternDim, [cfa.height as u16, cfa.width as u16]); // rows, cols
         self.ifd_mut().add_tag(TiffCommonTag::CFAPattern, &cfa.flat_pattern()[..]);
         self.ifd_mut().add_tag(TiffCommonTag::PhotometricInt, PhotometricInterpretation::CFA);
         self.ifd_mut().add_tag(DngTag::CFAPlaneColor, &config.colors);
-- 
2.43.0


From 181a773a60b58ef754c101892ac84ef9103f6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:32 +0000
Subject: [PATCH 06/86] fix: DNG colour matrices are selected independently of
 hash map order and none of two is lost

---
 rawler/src/dng/writer.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 512489f..61212cd 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -1,5 +1,6 @@
 use std::{
   borrow::Cow,
+  collections::BTreeMap,
   io::{self, Seek, Write},
   mem::size_of,
   time::Instant,
@@ -155,19 +156,16 @@ where
     if rawimage.cpp > 1 || matches!(rawimage.photometric, RawPhotometricInterpretation::Cfa(_)) {
       self.writer.as_shot_neutral(wbcoeff_to_tiff_value(&rawimage));
       // Add matrix and illumninant
-      let mut available_matrices = rawimage.color_matrix.clone();
-      if let Some(first_key) = available_matrices.keys().next().cloned() {
-        let first_matrix = available_matrices
-          .remove_entry(&Illuminant::A)
-          .or_else(|| available_matrices.remove_entry(&Illuminant::A))
-          .or_else(|| available_matrices.remove_entry(&first_key))
-          .expect("No matrix found");
+      // Selection must not depend on the (random) order of the map.
+      let mut available_matrices: BTreeMap<_, _> = rawimage.color_matrix.iter().map(|(illu, matrix)| (*illu, matrix.clone())).collect();
+      if let Some(first_matrix) = available_matrices.remove_entry(&Illuminant::A).or_else(|| available_matrices.pop_first()) {
         self
           .writer
           .color_matrix(1, first_matrix.0, matrix_to_tiff_value(&first_matrix.1, 10_000).as_slice());
         if let Some(second_matrix) = available_matrices
           .remove_entry(&Illuminant::D65)
           .or_else(|| available_matrices.remove_entry(&Illuminant::D50))
+          .or_else(|| available_matrices.pop_first())
         {
           self
             .writer
-- 
2.43.0


From 2713a7a375f826b46b750cb2bbca1bc2cb0a176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 07/86] fix: 8 bit monochrome images are written as 16 bit
 lossless JPEG so they can be read back

---
 rawler/src/dng/writer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 61212cd..3645399 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -571,6 +571,13 @@ where
   let tile_w = 256 & !0b111; // ensure div 16
   let tile_h = 256 & !0b111;
 
+  // DNG specification: 8 bit monochrome images with JPEG compression are always baseline DCT JPEG,
+  // lossless JPEG is reserved for more than 8 bits.
+  let bps = match &rawimage.photometric {
+    RawPhotometricInterpretation::BlackIsZero if rawimage.bps == 8 => 16,
+    _ => rawimage.bps,
+  };
+
   let lj92_data = match rawimage.data {
     RawImageData::Integer(ref data) => {
       // Only merge two lines into one for higher predictors, if image is CFA
@@ -594,7 +601,7 @@ where
         }
       };
 
-      debug!("LJPEG compression: bit depth: {}", rawimage.bps);
+      debug!("LJPEG compression: bit depth: {}", bps);
 
       // Build and compress each tile in one parallel pass: tile materialization
       // overlaps with LJPEG encoding instead of pre-collecting `Vec<Vec<u16>>`
@@ -602,7 +609,7 @@ where
       // staging to roughly O(threads × tile).
       let tiler = ImageTiler::new(data, rawimage.width, rawimage.height, rawimage.cpp, tile_w, tile_h);
       let n_tiles = tiler.tile_count();
-      let bps = rawimage.bps as u8;
+      let bps = bps as u8;
       let tiles_compr: Vec<Vec<u8>> = (0..n_tiles)
         .into_par_iter()
         .map(|idx| {
@@ -630,7 +637,7 @@ where
 
   subframe
     .ifd_mut()
-    .add_tag(TiffCommonTag::BitsPerSample, &vec![rawimage.bps as u16; rawimage.cpp]);
+    .add_tag(TiffCommonTag::BitsPerSample, &vec![bps as u16; rawimage.cpp]);
   subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![1_u16; rawimage.cpp]);
   subframe.ifd_mut().add_tag(TiffCommonTag::TileOffsets, &tile_offsets);
   subframe.ifd_mut().add_tag(TiffCommonTag::TileByteCounts, &tile_sizes);
-- 
2.43.0


From d827dd084a5c55f1f1377384ebb838959317bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:39 +0000
Subject: [PATCH 08/86] fix: TIFF reader follows sub-IFD offsets stored with
 field type IFD (13)

---
 rawler/src/formats/tiff/entry.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..4530a89 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -25,6 +25,7 @@ const TYPE_SLONG: u16 = 9;
 const TYPE_SRATIONAL: u16 = 10;
 const TYPE_FLOAT: u16 = 11;
 const TYPE_DOUBLE: u16 = 12;
+const TYPE_IFD: u16 = 13; // Same layout as LONG, used for SubIFD offsets
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct Entry {
@@ -85,7 +86,7 @@ impl Entry {
     let count = reader.read_u32()?;
 
     // If we don't know the type assume byte data (undefined)
-    let compat_typ = if typ == 0 || typ > 12 { 7 } else { typ };
+    let compat_typ = if typ == 0 || typ > 13 { 7 } else { typ };
 
     let bytesize: usize = (count as usize) << DATASHIFTS[compat_typ as usize];
     let offset: u32 = if bytesize <= 4 {
@@ -134,7 +135,7 @@ impl Entry {
           embedded: Some(offset),
         }
       }
-      TYPE_LONG => {
+      TYPE_LONG | TYPE_IFD => {
         let mut v = vec![0; count as usize];
         reader.read_u32_into(&mut v)?;
         Entry {
-- 
2.43.0


From 792659953f0c2077b037e17c7416817d5efb2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 09/86] fix: extracting an embedded original reports the total
 length, not the length of the last block

---
 rawler/src/dng/original.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..c2ecd97 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -68,7 +68,7 @@ impl OriginalCompressed {
     for chunk in self.chunks.iter().map(ForkBlock::decompress) {
       let buf = chunk?;
       stream.write_all(&buf)?;
-      total = buf.len();
+      total += buf.len();
       ctx.consume(&buf);
     }
 
-- 
2.43.0


From 216365f5890e76a628c2d317415ba4cd01b2013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:52 +0000
Subject: [PATCH 10/86] fix: convert leaves no incomplete DNG behind and a
 panicking decoder fails only its own file

---
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs | 31 +++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 144b7b7..bf1891a 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -92,6 +93,25 @@ impl Raw2DngJob {
       }
       Err(e) => return Err(e.into()),
     };
+    // From here on the output file is ours. Whatever goes wrong (including a panic while
+    // decoding a broken file), an incomplete DNG must not be left behind and must not take
+    // other jobs down.
+    let result = catch_unwind(AssertUnwindSafe(|| self.write_dng(file, &orig_filename)))
+      .unwrap_or_else(|_| Err(AppError::DecoderFailed(format!("Decoder panicked for file \"{}\"", orig_filename))));
+    if let Err(err) = result {
+      if let Err(err) = remove_file(&self.output) {
+        log::error!("Failed to delete DNG file after error: {:?}", err);
+      }
+      return Err(err);
+    }
+    Ok(JobResult {
+      job: self.clone(),
+      duration: 0.0,
+      error: None,
+    })
+  }
+
+  fn write_dng(&self, file: File, orig_filename: &str) -> Result<()> {
     if let Err(err) = file.try_lock() {
       return Err(AppError::General(format!("Cannot acquire exclusive lock on {}: {err}", self.output.display())));
     }
@@ -108,12 +128,7 @@ impl Raw2DngJob {
             log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
           }
         }
-        drop(file);
-        Ok(JobResult {
-          job: self.clone(),
-          duration: 0.0,
-          error: None,
-        })
+        Ok(())
       }
       Err(err) => {
         match &err {
@@ -128,10 +143,6 @@ impl Raw2DngJob {
             log::error!("Failed to decode file: {}", msg);
           }
         }
-        drop(dng);
-        if let Err(err) = remove_file(&self.output) {
-          log::error!("Failed to delete DNG file after decoder error: {:?}", err);
-        }
         Err(err.into())
       }
     }
-- 
2.43.0


From 8c419aaccfd9738301becc7f12ea75e93721c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:52 +0000
Subject: [PATCH 11/86] fix: convert --override never deletes an input file of
 the same run

---
 bin/dnglab/dnglab-lib/src/convert.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 6ba0e22..e77d533 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -59,6 +59,14 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
     }
   }
 
+  // An input file of this run must never be replaced by an output, even with --override.
+  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  for job in jobs.iter_mut() {
+    if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
+      job.replace = false;
+    }
+  }
+
   let verbose = options.get_flag("verbose");
   let concurrency = resolve_concurrency(options.get_one::<usize>("jobs").copied().unwrap_or(0));
 
-- 
2.43.0


From a639fad92a34a59684902a13ce0841b5ff167305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:52 +0000
Subject: [PATCH 12/86] fix: --index all on an undecodable file does not abort
 the whole batch

---
 bin/dnglab/dnglab-lib/src/convert.rs     | 3 ++-
 bin/dnglab/dnglab-lib/src/process_raw.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index e77d533..b439cfa 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -121,7 +121,8 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
     None => (false, 0),
   };
 
-  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
+  // If the image count is not available, the job itself will fail and report the error.
+  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src).unwrap_or(1) } else { 1 };
   let multi_frame = do_batch && batch_count > 1;
   let replace = options.get_flag("override");
 
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 2d786b4..456b0a7 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -107,7 +107,8 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
     None => (false, 0),
   };
 
-  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src)? } else { 1 };
+  // If the image count is not available, the job itself will fail and report the error.
+  let batch_count = if do_batch { rawler::raw_image_count_file(&entry.src).unwrap_or(1) } else { 1 };
 
   let mut jobs = Vec::new();
 
-- 
2.43.0


From 49de297aa3f1743fb661b86f0e04236f13319a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:52 +0000
Subject: [PATCH 13/86] fix: a dangling symlink in the input directory does not
 abort the whole batch

---
 bin/dnglab/dnglab-lib/src/filemap.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 92786b6..d478338 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -116,7 +116,14 @@ where
   let dir = read_dir(input)?;
   for entry in dir {
     let entry = entry?;
-    let in_md = fs::metadata(entry.path())?;
+    let in_md = match fs::metadata(entry.path()) {
+      Ok(md) => md,
+      Err(err) => {
+        // Dangling symlinks etc. must not prevent processing of all other files.
+        warn!("Unable to access {}: {}", entry.path().display(), err);
+        continue;
+      }
+    };
     if in_md.is_file() {
       if filter(&entry.path()) {
         result.push(entry.path());
-- 
2.43.0


From 0c98304111b4ac6199f6f030524a8d2f9efc97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:26 +0000
Subject: [PATCH 14/86] fix: process-raw never clobbers a file that appears
 concurrently and leaves no incomplete output behind

---
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 19 ++++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 37 +++++++++++--------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index d86a8f4..5c0a80b 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -3,11 +3,30 @@
 
 use async_trait::async_trait;
 use std::fmt::Debug;
+use std::fs::{File, OpenOptions, remove_file};
+use std::path::Path;
+
+use crate::{AppError, Result};
 
 pub mod extractraw;
 pub mod process_raw;
 pub mod raw2dng;
 
+/// Create the output file for a job.
+///
+/// `create_new(true)` (= `O_EXCL`) guarantees that an existing file is never clobbered
+/// unless `replace` is set.
+pub(crate) fn create_output(output: &Path, replace: bool) -> Result<File> {
+  if replace && output.exists() {
+    remove_file(output)?;
+  }
+  match OpenOptions::new().write(true).create_new(true).open(output) {
+    Ok(file) => Ok(file),
+    Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => Err(AppError::AlreadyExists(output.to_owned())),
+    Err(e) => Err(e.into()),
+  }
+}
+
 #[async_trait]
 pub trait Job: Clone + Debug + Send {
   type Output: Debug + Send;
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index fadcdef..76d1c30 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -69,9 +70,6 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 
 impl Raw2Image {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     // File name for embedding
     let orig_filename = self
       .input
@@ -81,7 +79,25 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(File::create(&self.output)?);
+    let file = create_output(&self.output, self.replace)?;
+    // Whatever goes wrong from here (including a panic), don't leave an incomplete image behind.
+    let result = catch_unwind(AssertUnwindSafe(|| self.write_image(file, &orig_filename)))
+      .unwrap_or_else(|_| Err(AppError::DecoderFailed(format!("Decoder panicked for file \"{}\"", orig_filename))));
+    if let Err(err) = result {
+      if let Err(err) = remove_file(&self.output) {
+        log::error!("Failed to delete output file after error: {:?}", err);
+      }
+      return Err(err);
+    }
+    Ok(JobResult {
+      job: self.clone(),
+      duration: 0.0,
+      error: None,
+    })
+  }
+
+  fn write_image(&self, file: File, orig_filename: &str) -> Result<()> {
+    let mut image_file = BufWriter::new(file);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
       Ok(_) => {
@@ -93,12 +109,7 @@ impl Raw2Image {
           let rawfile = RawSource::new(&self.input)?;
           copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
         }
-        drop(file);
-        Ok(JobResult {
-          job: self.clone(),
-          duration: 0.0,
-          error: None,
-        })
+        Ok(())
       }
       Err(err) => {
         match &err {
@@ -113,10 +124,6 @@ impl Raw2Image {
             log::error!("Failed to decode file: {}", msg);
           }
         }
-        drop(image_file);
-        if let Err(err) = remove_file(&self.output) {
-          log::error!("Failed to delete output file after decoder error: {:?}", err);
-        }
         Err(err.into())
       }
     }
-- 
2.43.0


From a5c3b291dc30ccbf6b1391d0b26a8e719216d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 15/86] fix: process-raw disambiguates inputs that map to the
 same output name

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 33 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 456b0a7..7c8f127 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -5,6 +5,7 @@ use clap::ArgMatches;
 use futures::future::join_all;
 use rawler::decoders::supported_extensions;
 use rawler::imgop::develop::RawProcessingParams;
+use std::collections::HashSet;
 use std::fs::create_dir_all;
 use std::path::PathBuf;
 
@@ -33,11 +34,15 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
+  // Output paths already assigned to a job in this run; used to disambiguate
+  // distinct source files that would otherwise produce the same image name
+  // (e.g. FOO.CR3 and FOO.NEF -> FOO.tif / FOO_1.tif).
+  let mut claimed: HashSet<PathBuf> = HashSet::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
     MapMode::File(sd) => {
-      jobs.append(&mut generate_job(&sd, options)?);
+      jobs.append(&mut generate_job(&sd, options, &mut claimed)?);
     }
     // Input is directory, to process all files
     MapMode::Dir(sd) => {
@@ -49,7 +54,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options)?);
+        jobs.append(&mut generate_job(&entry, options, &mut claimed)?);
       }
     }
   }
@@ -95,7 +100,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Convert given raw file to dng file
-fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>> {
+fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2Image>> {
   let (do_batch, index) = match options.get_one::<String>("index") {
     Some(index) => {
       if index.to_lowercase().eq("all") {
@@ -135,16 +140,26 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
 
     output.set_extension("tif");
 
+    let file_name = String::from(
+      output
+        .file_stem()
+        .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
+        .to_string_lossy(),
+    );
     if do_batch && batch_count > 1 {
-      let file_name = String::from(
-        output
-          .file_stem()
-          .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
-          .to_string_lossy(),
-      );
       output.set_file_name(format!("{}_{:04}.tif", file_name, i));
     }
 
+    let mut suffix = 0;
+    while !claimed.insert(output.clone()) {
+      suffix += 1;
+      if do_batch && batch_count > 1 {
+        output.set_file_name(format!("{}_{}_{:04}.tif", file_name, suffix, i));
+      } else {
+        output.set_file_name(format!("{}_{}.tif", file_name, suffix));
+      }
+    }
+
     match output.parent() {
       Some(parent) => {
         if !parent.exists() {
-- 
2.43.0


From 01671267799e7cf5a3be41142d41f5968c194f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 16/86] fix: process-raw --override never deletes an input file
 of the same run

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 7c8f127..f67e7f6 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -59,6 +59,14 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
     }
   }
 
+  // An input file of this run must never be replaced by an output, even with --override.
+  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  for job in jobs.iter_mut() {
+    if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
+      job.replace = false;
+    }
+  }
+
   let verbose = options.get_flag("verbose");
 
   let mut results: Vec<JobResult> = Vec::new();
-- 
2.43.0


From 5621903ffb2ef67e1fb45069401661fbde74a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:17 +0000
Subject: [PATCH 17/86] fix: makedng never deletes or truncates files it did
 not create and reports flush errors

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 53 ++++++++++++++++++----------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 57ba717..27ba61a 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -21,13 +21,16 @@ use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
 use std::fs::{File, remove_file};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::path::{Path, PathBuf};
 
 use std::str::FromStr;
 use std::time::Instant;
 
+use crate::jobs::create_output;
+
 fn get_input_path<'a>(inputs: &'a [&PathBuf], maps: &[&InputSourceUsageMap], usage: InputUsage) -> std::io::Result<&'a PathBuf> {
   maps
     .iter()
@@ -41,15 +44,7 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     .get_one("OUTPUT")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("Output path is required".into()))?;
 
-  match makedng_internal(options, dest_path).await {
-    Ok(_) => Ok(()),
-    Err(err) => {
-      if let Err(err) = remove_file(dest_path) {
-        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
-      }
-      Err(err)
-    }
-  }
+  makedng_internal(options, dest_path).await
 }
 
 /// Entry point for Clap sub command `makedng`
@@ -71,11 +66,32 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     )));
   }
 
-  if dest_path.exists() && !options.get_flag("override") {
+  let replace = options.get_flag("override");
+  // Never replace an input file
+  if let Ok(dest) = dest_path.canonicalize()
+    && inputs.iter().any(|input| input.canonicalize().is_ok_and(|input| input == dest))
+  {
     return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
   }
 
-  let mut stream = BufWriter::new(File::create(dest_path)?);
+  // Once the output file is created by us, remove it again on any error.
+  let file = create_output(dest_path, replace)?;
+  let result = catch_unwind(AssertUnwindSafe(|| write_dng(options, &inputs, &maps, file)))
+    .unwrap_or_else(|_| Err(crate::AppError::General("Failed to create DNG, decoder panicked".into())));
+  if let Err(err) = result {
+    if let Err(err) = remove_file(dest_path) {
+      log::error!("Failed to delete DNG file after error: {:?}", err);
+    }
+    return Err(err);
+  }
+
+  println!("File saved to: {}", dest_path.display());
+
+  Ok(())
+}
+
+fn write_dng(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsageMap], file: File) -> crate::Result<()> {
+  let mut stream = BufWriter::new(file);
 
   let backward_version = options
     .get_one::<DngVersion>("dng_backward_version")
@@ -104,7 +120,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     dng.root_ifd_mut().add_tag(DngTag::ColorimetricReference, colorimetric_reference.as_dng_value());
   }
 
-  if let Ok(raw_input) = get_input_path(&inputs, &maps, InputUsage::Raw) {
+  if let Ok(raw_input) = get_input_path(inputs, maps, InputUsage::Raw) {
     let rawfile = RawSource::new(raw_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       let rawimage = decoder.raw_image(&rawfile, &RawDecodeParams::default(), false)?;
@@ -160,7 +176,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No raw input file found");
   }
 
-  if let Ok(preview_input) = get_input_path(&inputs, &maps, InputUsage::Preview) {
+  if let Ok(preview_input) = get_input_path(inputs, maps, InputUsage::Preview) {
     let rawfile = RawSource::new(preview_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -178,7 +194,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No preview input file found");
   }
 
-  if let Ok(thumbnail_input) = get_input_path(&inputs, &maps, InputUsage::Thumbnail) {
+  if let Ok(thumbnail_input) = get_input_path(inputs, maps, InputUsage::Thumbnail) {
     let rawfile = RawSource::new(thumbnail_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -192,7 +208,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No thumbnail input file found");
   }
 
-  if let Ok(exif_input) = get_input_path(&inputs, &maps, InputUsage::Exif) {
+  if let Ok(exif_input) = get_input_path(inputs, maps, InputUsage::Exif) {
     let rawfile = RawSource::new(exif_input)?;
     // First, prefer JFIF decoder for preview files
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -210,7 +226,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No EXIF input file found");
   }
 
-  if let Ok(xmp_input) = get_input_path(&inputs, &maps, InputUsage::Xmp) {
+  if let Ok(xmp_input) = get_input_path(inputs, maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -268,8 +284,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
   //eprintln!("XYZ: {:?}", xyz);
 
   dng.close()?;
-
-  println!("File saved to: {}", dest_path.display());
+  stream.flush()?;
 
   Ok(())
 }
-- 
2.43.0


From 6c62d23108629cae294625f50b51387bf6d63abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:17 +0000
Subject: [PATCH 18/86] fix: extract does not let the embedded file name escape
 the output directory

---
 bin/dnglab/dnglab-lib/src/extract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 2e98566..af9c63e 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -9,7 +9,7 @@ use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
@@ -141,7 +141,10 @@ fn get_original_name(file: &GenericTiffReader) -> Option<String> {
     ..
   }) = file.get_entry(DngTag::OriginalRawFileName)
   {
-    Some(orig_name.strings()[0].clone())
+    // The name comes from an untrusted file. Only the plain file name is used, so the
+    // output can't leave the destination directory.
+    let name = orig_name.strings().first()?;
+    Path::new(name).file_name().map(|name| name.to_string_lossy().into_owned())
   } else {
     None
   }
-- 
2.43.0


From 06e8c9b0a21a8199d640c70cf6f0090f05d3cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 19/86] fix: extract never clobbers a concurrently created file
 and removes incomplete output on flush errors

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a4bcccf..d770b7a 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -53,9 +53,6 @@ impl Display for JobResult {
 
 impl ExtractRawJob {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     let dng_file = File::open(&self.input)?;
 
     let mut in_file = BufReader::new(dng_file);
@@ -73,15 +70,14 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let mut stream = BufWriter::new(File::create(&self.output)?);
-        if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
+        let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
+        if let Err(err) = original.decompress(&mut stream, !self.skip_checks).and_then(|_| stream.flush()) {
           drop(original);
           if let Err(err) = remove_file(&self.output) {
             log::error!("Failed to delete original file after decompress error: {:?}", err);
           }
           return Err(err.into());
         }
-        stream.flush()?;
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0, // TODO: fixme
-- 
2.43.0


From 49032873cdef8a1b2a63e617b1e7b170dbb9e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 20/86] fix: extract of a directory continues past unsuitable
 files and never replaces inputs or its own outputs

---
 bin/dnglab/dnglab-lib/src/extract.rs | 34 +++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index af9c63e..ff4a42c 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -7,6 +7,7 @@ use rawler::formats::tiff::reader::TiffReader;
 use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
+use std::collections::HashSet;
 use std::fs::File;
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
@@ -36,6 +37,7 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   let recursive = options.get_flag("recursive");
 
   let mut jobs = Vec::new();
+  let mut results: Vec<JobResult> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -54,14 +56,40 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
 
-      let tmp: Result<Vec<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
-      jobs.extend(tmp?.into_iter());
+      let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      for (entry, job) in list.iter().zip(tmp) {
+        match job {
+          Ok(job) => jobs.push(job),
+          // A file without embedded original must not prevent extraction of all others.
+          Err(err) => results.push(JobResult {
+            job: ExtractRawJob {
+              input: entry.src.clone(),
+              output: entry.dest.clone(),
+              replace: false,
+              skip_checks: false,
+            },
+            duration: 0.0,
+            error: Some(err),
+          }),
+        }
+      }
+    }
+  }
+
+  // Neither an input nor another output of this run must be replaced, even with --override.
+  let mut claimed: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  for job in jobs.iter_mut() {
+    let output = match (job.output.parent().and_then(|parent| parent.canonicalize().ok()), job.output.file_name()) {
+      (Some(parent), Some(name)) => parent.join(name),
+      _ => job.output.clone(),
+    };
+    if !claimed.insert(output) {
+      job.replace = false;
     }
   }
 
   let verbose = options.get_flag("verbose");
 
-  let mut results: Vec<JobResult> = Vec::new();
   for chunks in jobs.chunks(8) {
     let mut temp: Vec<JobResult> = join_all(chunks.iter().map(|j| j.execute()))
       .await
-- 
2.43.0


From dc6ab44a278c2624d82282b046b5769fdda10a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 21/86] fix: extract --recursive creates missing output sub
 directories

---
 bin/dnglab/dnglab-lib/src/extract.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index ff4a42c..2d17828 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -8,7 +8,7 @@ use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::collections::HashSet;
-use std::fs::File;
+use std::fs::{File, create_dir_all};
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
 use std::time::Instant;
@@ -143,7 +143,12 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, use_orig_filename: bool)
     p.push(orig_filename);
     p
   } else if use_orig_filename {
-    PathBuf::from(&entry.dest).with_file_name(orig_filename)
+    let p = PathBuf::from(&entry.dest).with_file_name(orig_filename);
+    if let Some(parent) = p.parent() {
+      // Sub directories in recursive mode
+      create_dir_all(parent)?;
+    }
+    p
   } else {
     PathBuf::from(&entry.dest)
   };
-- 
2.43.0


From fdebafb298909d19e827071190d31b6ca1362b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:13 +0000
Subject: [PATCH 22/86] fix: process-raw: write Compression and Predictor tags
 as SHORT

The TIFF specification requires SHORT; the untyped literals were written as SLONG.
---
 rawler/src/imgop/develop.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 96d7e44..9dfdefb 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -357,8 +357,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 1, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16]);
@@ -373,8 +373,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 3, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16]);
@@ -389,8 +389,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 4, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16, 16]); // Extra-channel, even if PhotometricInt is RGB!
-- 
2.43.0


From fa370be1ab6ad4c3976d82258191bea93902ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 23/86] fix: makedng: write WhiteLevel of 8 bit images as SHORT

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 27ba61a..cfeb38b 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -143,7 +143,7 @@ fn write_dng(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsag
           } else {
             // We have no linearization table, so from 8 bit image there is a maximum
             // white level of 255.
-            frame.ifd_mut().add_tag(DngTag::WhiteLevel, [255, 255, 255]);
+            frame.ifd_mut().add_tag(DngTag::WhiteLevel, [255_u16, 255, 255]);
           }
 
           frame.finalize()?;
-- 
2.43.0


From 6cb59e3dbaaab90866e7b68bfffa8d135ea5c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 24/86] fix: makedng: --artist is not overwritten by the EXIF
 input

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index cfeb38b..22f53b9 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -100,10 +100,6 @@ fn write_dng(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsag
 
   let mut dng = DngWriter::new(&mut stream, backward_version)?;
 
-  if let Some(artist) = options.get_one::<String>("artist") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
-  }
-
   if let Some(make) = options.get_one::<String>("make") {
     dng.root_ifd_mut().add_tag(TiffCommonTag::Make, make);
   }
@@ -226,6 +222,11 @@ fn write_dng(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsag
     eprintln!("No EXIF input file found");
   }
 
+  // Explicit artist overrides the artist from EXIF input
+  if let Some(artist) = options.get_one::<String>("artist") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
+  }
+
   if let Ok(xmp_input) = get_input_path(inputs, maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
-- 
2.43.0


From ecf712601fcdf97e3c83a955f31023849c030d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:46 +0000
Subject: [PATCH 25/86] fix: keep the XMP packet of DNG input files

---
 rawler/src/decoders/dng.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 6900644..e3ff958 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -92,6 +92,13 @@ impl<'a> Decoder for DngDecoder<'a> {
     Ok(mdata)
   }
 
+  fn xpacket(&self, _file: &RawSource, _params: &RawDecodeParams) -> Result<Option<Vec<u8>>> {
+    Ok(match self.tiff.root_ifd().get_entry(TiffCommonTag::Xmp).map(|entry| &entry.value) {
+      Some(Value::Byte(buf) | Value::Undefined(buf)) => Some(buf.clone()),
+      _ => None,
+    })
+  }
+
   fn thumbnail_image(&self, file: &RawSource, _params: &RawDecodeParams) -> Result<Option<DynamicImage>> {
     if let Some(thumb_ifd) = Some(self.tiff.root_ifd()).filter(|ifd| ifd.get_entry(TiffCommonTag::NewSubFileType).map(|entry| entry.force_u16(0)) == Some(1)) {
       Ok(Some(dynamic_image_from_ifd(thumb_ifd, file)?))
-- 
2.43.0


From 0ca6076058e4028b33015b9ea018c645d06420ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 26/86] fix: unpack rows of any width, rows of packed samples
 start on a byte boundary

---
 rawler/src/decompressors/packed.rs | 47 +++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 53fcd7e..c21bf01 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -1,7 +1,7 @@
 //! Unpacking of packed bits.
 //!
 //! Raw image data stored with `CompressionMethod::None` packs samples
-//! back-to-back with no padding between them. This module provides
+//! back-to-back, each row starts on a byte boundary. This module provides
 //! [`PackedDecompressor`], which dispatches to a bit-depth-specific
 //! unpacker based on the bits-per-sample and byte order declared in the
 //! TIFF IFD:
@@ -111,13 +111,17 @@ fn unpack_16le<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_12be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize) -> std::result::Result<(), String> {
   const BITS: usize = 12;
-  let need = ((skip_rows + lines.len()) * width * BITS).div_ceil(u8::BITS as usize);
+  // Each row starts on a byte boundary
+  let stride = (width * BITS).div_ceil(u8::BITS as usize);
+  let need = (skip_rows + lines.len()) * stride;
   if src.len() < need {
     return Err(format!("unpack_12be(): buffer too short ({} < {})", src.len(), need));
   }
   for (row, line) in lines.enumerate() {
-    let inb = &src[((skip_rows + row) * width * BITS / 8)..];
-    for (o, i) in line.as_chunks_mut::<2>().0.into_iter().zip(inb.as_chunks::<3>().0.into_iter()) {
+    let inb = &src[((skip_rows + row) * stride)..];
+    let (groups, tail) = line.as_chunks_mut::<2>();
+    let tail_offset = groups.len() * 3;
+    for (o, i) in groups.into_iter().zip(inb.as_chunks::<3>().0.into_iter()) {
       let g1: u16 = i[0] as u16;
       let g2: u16 = i[1] as u16;
       let g3: u16 = i[2] as u16;
@@ -125,6 +129,7 @@ fn unpack_12be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
       o[0] = (g1 << 4) | (g2 >> 4);
       o[1] = ((g2 & 0x0f) << 8) | g3;
     }
+    unpack_tail_msb(tail, &inb[tail_offset..], BITS as u32);
   }
   Ok(())
 }
@@ -132,14 +137,18 @@ fn unpack_12be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_10be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize) -> std::result::Result<(), String> {
   const BITS: usize = 10;
-  let need = ((skip_rows + lines.len()) * width * BITS).div_ceil(u8::BITS as usize);
+  // Each row starts on a byte boundary
+  let stride = (width * BITS).div_ceil(u8::BITS as usize);
+  let need = (skip_rows + lines.len()) * stride;
   if src.len() < need {
     return Err(format!("unpack_10be(): buffer too short ({} < {})", src.len(), need));
   }
   for (row, line) in lines.enumerate() {
-    let inb = &src[((skip_rows + row) * width * BITS / 8)..];
+    let inb = &src[((skip_rows + row) * stride)..];
 
-    for (o, i) in line.as_chunks_mut::<4>().0.into_iter().zip(inb.as_chunks::<5>().0) {
+    let (groups, tail) = line.as_chunks_mut::<4>();
+    let tail_offset = groups.len() * 5;
+    for (o, i) in groups.into_iter().zip(inb.as_chunks::<5>().0) {
       let g1: u16 = i[0] as u16;
       let g2: u16 = i[1] as u16;
       let g3: u16 = i[2] as u16;
@@ -151,6 +160,7 @@ fn unpack_10be<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
       o[2] = ((g3 & 0x0f) << 6) | (g4 >> 2);
       o[3] = ((g4 & 0x03) << 8) | g5;
     }
+    unpack_tail_msb(tail, &inb[tail_offset..], BITS as u32);
   }
   Ok(())
 }
@@ -173,24 +183,27 @@ fn unpack_8bit<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows:
 
 #[multiversion(targets("x86_64+avx+avx2+fma", "x86+sse", "aarch64+neon"))]
 fn unpack_generic_msb<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip_rows: usize, width: usize, bits: u32) -> std::result::Result<(), String> {
-  let need = ((skip_rows + lines.len()) * width * bits as usize).div_ceil(u8::BITS as usize);
+  // Each row starts on a byte boundary
+  let stride = (width * bits as usize).div_ceil(u8::BITS as usize);
+  let need = (skip_rows + lines.len()) * stride;
   if src.len() < need {
     return Err(format!("unpack_generic_msb(): buffer too short ({} < {})", src.len(), need));
   }
   assert!(bits <= 16);
-  let skip_bits = skip_rows * width * bits as usize;
-  let offset = skip_bits / 8;
-  let bias = skip_bits % 8;
-  let mut pump = BitPumpMSB::new(&src[offset..]);
-  pump.consume_bits(bias as u32);
-  for line in lines {
-    for p in line {
-      *p = pump.get_bits(bits) as u16;
-    }
+  for (row, line) in lines.enumerate() {
+    unpack_tail_msb(line, &src[((skip_rows + row) * stride)..], bits);
   }
   Ok(())
 }
 
+/// Unpacks samples with arbitrary bit depth, MSB first.
+fn unpack_tail_msb(samples: &mut [u16], src: &[u8], bits: u32) {
+  let mut pump = BitPumpMSB::new(src);
+  for p in samples {
+    *p = pump.get_bits(bits) as u16;
+  }
+}
+
 impl<'a> Decompressor<'a, f32> for PackedDecompressor {
   fn decompress(&self, src: &[u8], skip_rows: usize, lines: impl LineIteratorMut<'a, f32>, line_width: usize) -> std::result::Result<(), String> {
     match (self.endian, self.bps) {
-- 
2.43.0


From 0af76c9c5a22505d9f3453f2d38d37a6c284d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:45 +0000
Subject: [PATCH 27/86] fix: subnormal 32 bit floats in deflate compressed
 images decode to themselves

---
 rawler/src/bits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index bf2a1de..5346d3c 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -335,6 +335,9 @@ pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE
       // +-Zero
       wide_exponent = 0;
       wide_fraction = 0;
+    } else if NARROW::EXPONENT_WIDTH == WIDE::EXPONENT_WIDTH {
+      // Same exponent range, subnormal numbers stay subnormal.
+      wide_exponent = 0;
     } else {
       // Subnormal numbers
       // We can represent it as a normalized value in wider type,
-- 
2.43.0


From b8fc79e17d226f3c592a4b545295a6d9d1181961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:07 +0000
Subject: [PATCH 28/86] fix: linearization with steep or non-monotonic tables
 and rows of less than four bytes

---
 rawler/src/bits.rs         | 12 +++++++-----
 rawler/src/decoders/mod.rs |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index 5346d3c..8954830 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -209,7 +209,7 @@ pub fn LEu16(buf: &[u8], pos: usize) -> u16 {
 
 #[derive(Debug, Clone)]
 pub struct LookupTable {
-  table: Vec<(u16, u16, u16)>,
+  table: Vec<(u16, i32, u16)>,
 }
 
 impl LookupTable {
@@ -219,8 +219,11 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 { table[i - 1] } else { center };
       let upper = if i < (table.len() - 1) { table[i + 1] } else { center };
-      let base = if center == 0 { 0 } else { center - ((upper - lower + 2) / 4) };
+      // The table may be steep or not monotonic, don't interpolate across the cut-off.
+      let lower = lower.min(center);
+      let upper = upper.max(center);
       let delta = upper - lower;
+      let base = if center == 0 { 0 } else { center as i32 - ((delta as i32 + 2) / 4) };
       tbl[i] = (center, base, delta);
     }
     LookupTable { table: tbl }
@@ -246,11 +249,10 @@ impl LookupTable {
   #[inline(always)]
   pub fn dither(&self, value: u16, rand: &mut u32) -> u16 {
     let (_, sbase, sdelta) = self.table[value as usize];
-    let base = sbase as u32;
     let delta = sdelta as u32;
-    let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
+    let pixel = sbase + ((delta * (*rand & 2047) + 1024) >> 12) as i32;
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    pixel.clamp(0, u16::MAX as i32) as u16
   }
 }
 
diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 8d576b4..da00112 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -21,7 +21,6 @@ use std::rc::Rc;
 use std::str::FromStr;
 use std::sync::Arc;
 use std::time::SystemTime;
-use zerocopy::IntoBytes;
 
 use crate::Result;
 use crate::alloc_image_ok;
@@ -809,7 +808,8 @@ pub(crate) fn apply_linearization(image: &mut PixU16, tbl: &Value, bits: u32) {
       }
       let table = LookupTable::new_with_bits(points, bits);
       image.par_pixel_rows_mut().for_each(|row| {
-        let mut random = LEu32(row.as_bytes(), 0);
+        // A row may hold less than 4 bytes
+        let mut random = row.first().map_or(0, |p| *p as u32) | row.get(1).map_or(0, |p| (*p as u32) << 16);
         row.iter_mut().for_each(|p| {
           *p = table.dither(*p, &mut random);
         })
-- 
2.43.0


From 6ff5dcd0d99117c928598b1d06d08636bfbcabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:42 +0000
Subject: [PATCH 29/86] fix: write embedded SBYTE, SSHORT and FLOAT values bit
 for bit

---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..e39a15c 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From 0aebf0eafbb20166ee7ed9fd1933e6cdb24b1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 30/86] fix: keep all strings of ASCII values with more than
 one string

---
 rawler/src/formats/tiff/value.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index e39a15c..5402aa2 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -1041,16 +1041,12 @@ impl TiffAscii {
   }
 
   pub fn new_from_raw(raw: &[u8]) -> Self {
-    let mut strings = Vec::new();
-    let mut nul_range_end = 0;
-
-    // TODO: fixme multiple strings
-    //while nul_range_end < raw.len() {
-    nul_range_end = raw[nul_range_end..].iter().position(|&c| c == b'\0').unwrap_or(raw.len()); // default to length if no `\0` present
-    let s = ::std::str::from_utf8(&raw[0..nul_range_end]).unwrap_or("!!!INVALID UTF8!!!");
-    strings.push(String::from(s));
-    //nul_range_end += 1;
-    // }
+    // A value may hold multiple strings, each terminated by NUL (the last terminator may be missing)
+    let body = raw.strip_suffix(b"\0").unwrap_or(raw);
+    let strings = body
+      .split(|&c| c == b'\0')
+      .map(|s| String::from(::std::str::from_utf8(s).unwrap_or("!!!INVALID UTF8!!!")))
+      .collect();
 
     Self {
       strings,
-- 
2.43.0


From bbd38decb1ef188f1fe98bec4befbc8beb4c161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:47 +0000
Subject: [PATCH 31/86] fix: apply the offset correction once to chained
 directories

---
 rawler/src/formats/tiff/ifd.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..c0d9109 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -84,7 +84,6 @@ impl IFD {
     next_ifd = root.next_ifd;
 
     while next_ifd != 0 {
-      next_ifd = apply_corr(next_ifd, corr);
       let ifd = IFD::new(reader, next_ifd, base, corr, endian, &multi_sub_tags)?;
       if ifd.entries.is_empty() {
         return Err(TiffError::General("TIFF is invalid, IFD must contain at least one entry".to_string()));
-- 
2.43.0


From 4eb204ce5ed5971ae7095e2b38f569033fa9e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 32/86] fix: stop reading a TIFF directory chain which points
 back to itself

---
 rawler/src/formats/tiff/reader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..caf0bb1 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -8,7 +8,10 @@ use crate::{
 };
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::{
+  collections::HashSet,
+  io::{Cursor, Read, Seek, SeekFrom},
+};
 
 pub trait TiffReader {
   fn file(&self) -> &TiffFile;
@@ -167,7 +170,12 @@ pub trait TiffReader {
 
     next_ifd = apply_corr(next_ifd, self.file().corr);
     let mut chain = Vec::new();
+    let mut visited = HashSet::new();
     while next_ifd != 0 {
+      if !visited.insert(next_ifd) {
+        log::warn!("TIFF: IFD chain points back to offset {}, ignoring the remaining chain", next_ifd);
+        break;
+      }
       // TODO: check if offset is in range
       let mut multi_sub_tags = self.wellknown_sub_ifd_tags();
       multi_sub_tags.extend_from_slice(sub_tags);
-- 
2.43.0


From e5622b107a6f75a035f044955602711bd0da6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 33/86] fix: check TIFF entry sizes against the file size
 before allocating memory

---
 rawler/src/formats/tiff/entry.rs  | 8 ++++++++
 rawler/src/formats/tiff/reader.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 4530a89..692651d 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -63,6 +63,9 @@ impl<'a> RawEntry<'a> {
 // 0-1-2-3-4-5-6-7-8-9-10-11-12-13
 const DATASHIFTS: [u8; 14] = [0, 0, 0, 1, 2, 3, 0, 0, 1, 2, 3, 2, 3, 2];
 
+/// Entries with more data than this are checked against the file size
+const UNCHECKED_SIZE: usize = 4096;
+
 impl Entry {
   pub fn value_type(&self) -> u16 {
     self.value.value_type()
@@ -106,6 +109,11 @@ impl Entry {
       return Err(TiffError::Overflow(format!("Offset {} is invalid for tag 0x{:X}", offset, tag)));
     }
 
+    // Don't allocate memory for data which can't exist in the file
+    if bytesize > UNCHECKED_SIZE && (base as u64 + offset as u64).saturating_add(bytesize as u64) > reader.len()? {
+      return Err(TiffError::Overflow(format!("Data of {} bytes for tag 0x{:X} is behind end of file", bytesize, tag)));
+    }
+
     reader.goto(base + offset)?;
     let entry = match typ {
       TYPE_BYTE => {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index caf0bb1..02cfe7a 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -299,6 +299,11 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
     Ok(self.inner.stream_position().map(|v| v as u32)?)
   }
 
+  /// Total length of the stream, changes the current position.
+  pub fn len(&mut self) -> Result<u64> {
+    Ok(self.inner.seek(SeekFrom::End(0))?)
+  }
+
   // TODO: try_from?
 
   pub fn goto(&mut self, offset: u32) -> Result<()> {
-- 
2.43.0


From 3d88189d37c4b0faabb397c7d98965f9fd823107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 34/86] fix: read the next IFD pointer behind the entries even
 if entries are damaged

---
 rawler/src/formats/tiff/ifd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index c0d9109..7159a1d 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -116,6 +116,7 @@ impl IFD {
     let mut entries = BTreeMap::new();
     let mut sub = HashMap::new();
     let mut next_pos = reader.position()?;
+    let end_pos = next_pos.saturating_add(entry_count as u32 * 12);
     debug!("Parse entries");
     let mut consecutive_errors = 0;
 
@@ -188,6 +189,7 @@ impl IFD {
 
     // Some TIFF writers skip the next ifd pointer
     // If we get an I/O error, we fallback to 0, signaling the end of IFD chains.
+    reader.goto(end_pos)?;
     let next_ifd = match reader.read_u32() {
       Ok(ptr) => ptr,
       Err(e) => {
-- 
2.43.0


From 24139d0fda5a413a9c24f5efd8b8d95384e7d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:16 +0000
Subject: [PATCH 35/86] fix: no panic on empty or short TIFF values used as
 offsets, strips or makernotes

---
 rawler/src/formats/tiff/ifd.rs | 36 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 7159a1d..91cad5f 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -100,7 +100,7 @@ impl IFD {
   }
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    reader.seek(SeekFrom::Start(base as u64 + offset as u64))?;
     let mut sub_ifd_offsets = HashMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
@@ -153,7 +153,7 @@ impl IFD {
               Value::Long(offsets) => {
                 sub_ifd_offsets.insert(tag, offsets.clone());
               }
-              Value::Unknown(tag, offsets) => {
+              Value::Unknown(tag, offsets) if !offsets.is_empty() => {
                 sub_ifd_offsets.insert(*tag, vec![offsets[0] as u32]);
               }
               Value::Undefined(_) => {
@@ -241,7 +241,7 @@ impl IFD {
 
   /*
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<Self> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    reader.seek(SeekFrom::Start(base as u64 + offset as u64))?;
     let mut sub_ifd_offsets = Vec::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
@@ -304,7 +304,7 @@ impl IFD {
         }
         val => {
           debug!("Found IFD offset tag, but type mismatch: {:?}", val);
-          todo!()
+          Err(TiffError::General(format!("Tag 0x{:X} is not a valid IFD offset", tag)))
         }
       }
     } else {
@@ -528,6 +528,10 @@ impl IFD {
       )));
     }
 
+    if offsets.is_empty() {
+      return Err(TiffError::General("StripOffsets is empty".to_string()));
+    }
+
     // Check if all slices are continous
     let (is_continous, end_off) =
       offsets.iter().zip(sizes.iter()).fold(
@@ -592,37 +596,37 @@ impl IFD {
           let mut endian = self.endian;
 
           // Olympus starts the makernote with their own name, sometimes truncated
-          if data[0..5] == b"OLYMP"[..] {
+          if data.starts_with(b"OLYMP") {
             off += 8;
-            if data[0..7] == b"OLYMPUS"[..] {
+            if data.starts_with(b"OLYMPUS") {
               off += 4;
             }
           }
 
           // Epson starts the makernote with its own name
-          if data[0..5] == b"EPSON"[..] {
+          if data.starts_with(b"EPSON") {
             off += 8;
           }
 
           // Fujifilm has 12 extra bytes
-          if data[0..8] == b"FUJIFILM"[..] {
+          if data.starts_with(b"FUJIFILM") {
             off += 12;
           }
 
           // Sony has 12 extra bytes
-          if data[0..9] == b"SONY DSC "[..] {
+          if data.starts_with(b"SONY DSC ") {
             off += 12;
           }
 
           // Pentax makernote starts with AOC\0 - If it's there, skip it
-          if data[0..4] == b"AOC\0"[..] {
+          if data.starts_with(b"AOC\0") {
             off += 4;
           }
 
           // Pentax can also start with PENTAX and in that case uses different offsets
-          if data[0..6] == b"PENTAX"[..] {
+          if data.starts_with(b"PENTAX") {
             off += 8;
-            let endian = if data[off..off + 2] == b"II"[..] { Endian::Little } else { Endian::Big };
+            let endian = if data.get(off..off + 2) == Some(b"II") { Endian::Little } else { Endian::Big };
             // All offsets in this IFD are relative to the start of this tag,
             // so wie use the offset as correction value.
             let corr = offset as i32;
@@ -630,18 +634,18 @@ impl IFD {
             return Ok(Some(IFD::new(reader, offset + 10, self.base, corr, endian, sub_tags)?));
           }
 
-          if data[0..7] == b"Nikon\0\x02"[..] {
+          if data.starts_with(b"Nikon\0\x02") {
             off += 10;
-            let endian = if data[off..off + 2] == b"II"[..] { Endian::Little } else { Endian::Big };
+            let endian = if data.get(off..off + 2) == Some(b"II") { Endian::Little } else { Endian::Big };
             return Ok(Some(IFD::new(reader, 8, self.base + offset + 10, 0, endian, sub_tags)?));
           }
 
           // Some have MM or II to indicate endianness - read that
-          if data[off..off + 2] == b"II"[..] {
+          if data.get(off..off + 2) == Some(b"II") {
             off += 2;
             endian = Endian::Little;
           }
-          if data[off..off + 2] == b"MM"[..] {
+          if data.get(off..off + 2) == Some(b"MM") {
             off += 2;
             endian = Endian::Big;
           }
-- 
2.43.0


From ef479db6dd890dc0067b250f6dee2c1ccf7f5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:16 +0000
Subject: [PATCH 36/86] fix: continue behind a damaged APP1 segment and reject
 too short XMP segments

---
 rawler/src/formats/jfif.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 05f8964..cddd3f8 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -174,7 +174,7 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App1 {
     }
 
     const APP1_XMP_MARKER: &str = concat!("http://ns.adobe.com/xap/1.0/", '\0');
-    if len as usize >= APP1_XMP_MARKER.len() {
+    if len as usize >= APP1_XMP_MARKER.len() + 2 {
       let mut xmp_str = [0; APP1_XMP_MARKER.len()];
       reader.read_exact(&mut xmp_str)?;
       if xmp_str == APP1_XMP_MARKER.as_bytes() {
@@ -232,7 +232,7 @@ impl Jfif {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
           Err(err) => {
             log::warn!("Failed to read APP1 (EXIF) segement, maybe corrupt: {:?}", err);
-            continue;
+            Segment::Unknown { offset: pos, marker: symbol }
           }
         },
         0xFFDA => Segment::SOS {
-- 
2.43.0


From 3b5888b16e43eb5eed1c8e7b3407cd6fba3f158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:17 +0000
Subject: [PATCH 37/86] fix: validate BMFF box sizes and skip unknown uuid
 boxes in moov

---
 rawler/src/formats/bmff/ftyp.rs | 2 +-
 rawler/src/formats/bmff/mod.rs  | 8 ++++++++
 rawler/src/formats/bmff/moov.rs | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/bmff/ftyp.rs b/rawler/src/formats/bmff/ftyp.rs
index c0d6543..a2ecb44 100644
--- a/rawler/src/formats/bmff/ftyp.rs
+++ b/rawler/src/formats/bmff/ftyp.rs
@@ -23,7 +23,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for FtypBox {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let major = reader.read_u32::<BigEndian>()?;
     let minor = reader.read_u32::<BigEndian>()?;
-    if header.size % 4 != 0 {
+    if header.size < 16 || header.size % 4 != 0 {
       return Err(BmffError::Parse("invalid ftyp size".into()));
     }
     let brand_count = (header.size - 16) / 4; // header + major + minor
diff --git a/rawler/src/formats/bmff/mod.rs b/rawler/src/formats/bmff/mod.rs
index 4127787..b4e09f1 100644
--- a/rawler/src/formats/bmff/mod.rs
+++ b/rawler/src/formats/bmff/mod.rs
@@ -82,6 +82,14 @@ impl BoxHeader {
     }
 
     let current = reader.stream_position()?;
+    if size == 0 {
+      // Box extends to the end of file
+      size = reader.seek(SeekFrom::End(0))?.saturating_sub(start);
+      reader.seek(SeekFrom::Start(current))?;
+    }
+    if size < current - start || start.checked_add(size).is_none() {
+      return Err(BmffError::Parse(format!("invalid size {} for box {:?}", size, typ)));
+    }
     Ok(BoxHeader {
       size,
       typ,
diff --git a/rawler/src/formats/bmff/moov.rs b/rawler/src/formats/bmff/moov.rs
index 1c3e248..99f2335 100644
--- a/rawler/src/formats/bmff/moov.rs
+++ b/rawler/src/formats/bmff/moov.rs
@@ -57,6 +57,10 @@ impl<R: Read + Seek> ReadBox<&mut R> for MoovBox {
           if let Some(uuid) = header.uuid {
             if uuid == Uuid::from_bytes(Cr3DescBox::UUID) {
               cr3desc = Some(Cr3DescBox::read_box(&mut reader, header)?);
+            } else {
+              debug!("Vendor box found in moov: {:?}", uuid);
+              let vendor = VendorBox::read_box(&mut reader, header)?;
+              vendors.push(vendor);
             }
           } else {
             debug!("Vendor box found in moov: {:?}", header.typ);
-- 
2.43.0


From eaece755db5444a60fe300df61fb89003c4a10b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:17 +0000
Subject: [PATCH 38/86] fix: do not allocate memory from unchecked BMFF counts
 and sizes

---
 rawler/src/formats/bmff/co64.rs         |  2 +-
 rawler/src/formats/bmff/ext_cr3/cmt1.rs |  8 +++++---
 rawler/src/formats/bmff/ext_cr3/cmt2.rs |  8 +++++---
 rawler/src/formats/bmff/ext_cr3/cmt3.rs |  8 +++++---
 rawler/src/formats/bmff/ext_cr3/cmt4.rs |  8 +++++---
 rawler/src/formats/bmff/ext_cr3/cnop.rs | 10 ++++++----
 rawler/src/formats/bmff/ext_cr3/ctmd.rs |  2 +-
 rawler/src/formats/bmff/stsc.rs         |  2 +-
 rawler/src/formats/bmff/stsz.rs         |  2 +-
 rawler/src/formats/bmff/stts.rs         |  2 +-
 10 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/rawler/src/formats/bmff/co64.rs b/rawler/src/formats/bmff/co64.rs
index 60a33c4..2e0aa52 100644
--- a/rawler/src/formats/bmff/co64.rs
+++ b/rawler/src/formats/bmff/co64.rs
@@ -25,7 +25,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Co64Box {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
     for _i in 0..entry_count {
       let chunk_offset = reader.read_u64::<BigEndian>()?;
       entries.push(chunk_offset);
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt1.rs b/rawler/src/formats/bmff/ext_cr3/cmt1.rs
index 4aa7c55..181bc06 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt1.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt1.rs
@@ -21,9 +21,11 @@ impl Cmt1Box {
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt1Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data_len = header.end_offset().saturating_sub(current);
+    let mut data = Vec::new();
+    if reader.take(data_len).read_to_end(&mut data)? as u64 != data_len {
+      return Err(BmffError::Parse(format!("box {:?} is behind end of file", header.typ)));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt2.rs b/rawler/src/formats/bmff/ext_cr3/cmt2.rs
index 398b535..0d53584 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt2.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt2.rs
@@ -21,9 +21,11 @@ impl Cmt2Box {
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt2Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data_len = header.end_offset().saturating_sub(current);
+    let mut data = Vec::new();
+    if reader.take(data_len).read_to_end(&mut data)? as u64 != data_len {
+      return Err(BmffError::Parse(format!("box {:?} is behind end of file", header.typ)));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt3.rs b/rawler/src/formats/bmff/ext_cr3/cmt3.rs
index 66e7ff9..6e6f53a 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt3.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt3.rs
@@ -21,9 +21,11 @@ impl Cmt3Box {
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt3Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data_len = header.end_offset().saturating_sub(current);
+    let mut data = Vec::new();
+    if reader.take(data_len).read_to_end(&mut data)? as u64 != data_len {
+      return Err(BmffError::Parse(format!("box {:?} is behind end of file", header.typ)));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt4.rs b/rawler/src/formats/bmff/ext_cr3/cmt4.rs
index 1afbf1a..9d5e52a 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt4.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt4.rs
@@ -21,9 +21,11 @@ impl Cmt4Box {
 impl<R: Read + Seek> ReadBox<&mut R> for Cmt4Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data_len = header.end_offset().saturating_sub(current);
+    let mut data = Vec::new();
+    if reader.take(data_len).read_to_end(&mut data)? as u64 != data_len {
+      return Err(BmffError::Parse(format!("box {:?} is behind end of file", header.typ)));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cnop.rs b/rawler/src/formats/bmff/ext_cr3/cnop.rs
index efe0470..30aa5ca 100644
--- a/rawler/src/formats/bmff/ext_cr3/cnop.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cnop.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BmffError, BoxHeader, FourCC, ReadBox, Result};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -18,9 +18,11 @@ impl CnopBox {
 impl<R: Read + Seek> ReadBox<&mut R> for CnopBox {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
-    let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data_len = header.end_offset().saturating_sub(current);
+    let mut data = Vec::new();
+    if reader.take(data_len).read_to_end(&mut data)? as u64 != data_len {
+      return Err(BmffError::Parse(format!("box {:?} is behind end of file", header.typ)));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/ctmd.rs b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
index 7c87781..ca72758 100644
--- a/rawler/src/formats/bmff/ext_cr3/ctmd.rs
+++ b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
@@ -42,7 +42,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for CtmdBox {
     let data_ref_index = reader.read_u16::<BigEndian>()?;
     let rec_count = reader.read_u32::<BigEndian>()?;
 
-    let mut records = Vec::with_capacity(rec_count as usize);
+    let mut records = Vec::new();
 
     //let mut current = reader.seek(SeekFrom::Current(0))?;
 
diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index 47a66fc..0f9216f 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -42,7 +42,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
 
     // Reader for a single stsc entry
     let mut read_entry = || -> Result<StscEntry> {
diff --git a/rawler/src/formats/bmff/stsz.rs b/rawler/src/formats/bmff/stsz.rs
index 82e191f..6476c6d 100644
--- a/rawler/src/formats/bmff/stsz.rs
+++ b/rawler/src/formats/bmff/stsz.rs
@@ -35,7 +35,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StszBox {
 
     let sample_size = reader.read_u32::<BigEndian>()?;
     let sample_count = reader.read_u32::<BigEndian>()?;
-    let mut sample_sizes = Vec::with_capacity(sample_count as usize);
+    let mut sample_sizes = Vec::new();
     if sample_size == 0 {
       for _ in 0..sample_count {
         let sample_number = reader.read_u32::<BigEndian>()?;
diff --git a/rawler/src/formats/bmff/stts.rs b/rawler/src/formats/bmff/stts.rs
index c3bcbb8..9d6363a 100644
--- a/rawler/src/formats/bmff/stts.rs
+++ b/rawler/src/formats/bmff/stts.rs
@@ -30,7 +30,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for SttsBox {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
     for _i in 0..entry_count {
       let entry = SttsEntry {
         sample_count: reader.read_u32::<BigEndian>()?,
-- 
2.43.0


From 46e31a04cd8b2dd7fc7e4a76895bea43c59f589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:17 +0000
Subject: [PATCH 39/86] fix: report invalid BMFF boxes as errors instead of
 panics

---
 rawler/src/formats/bmff/ext_cr3/ctmd.rs |  6 ++++--
 rawler/src/formats/bmff/ext_cr3/iad1.rs |  4 ++--
 rawler/src/formats/bmff/mdhd.rs         |  6 ++++--
 rawler/src/formats/bmff/mvhd.rs         |  6 ++++--
 rawler/src/formats/bmff/stsd.rs         | 10 +++++++---
 5 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/rawler/src/formats/bmff/ext_cr3/ctmd.rs b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
index ca72758..e1a897e 100644
--- a/rawler/src/formats/bmff/ext_cr3/ctmd.rs
+++ b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BmffError, BoxHeader, FourCC, ReadBox, Result};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -59,7 +59,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for CtmdBox {
       //current = reader.seek(SeekFrom::Current(0))?;
     }
 
-    assert!(reader.stream_position()? == header.end_offset());
+    if reader.stream_position()? != header.end_offset() {
+      return Err(BmffError::Parse("CTMD records do not fill the box".into()));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/iad1.rs b/rawler/src/formats/bmff/ext_cr3/iad1.rs
index 9fb6dfe..b756400 100644
--- a/rawler/src/formats/bmff/ext_cr3/iad1.rs
+++ b/rawler/src/formats/bmff/ext_cr3/iad1.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -103,7 +103,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Iad1Box {
         active_area_bottom_offset: reader.read_u16::<BigEndian>()?,
       }),
       _ => {
-        panic!("Invalid iad1 type"); // TODO
+        return Err(BmffError::Parse(format!("Invalid iad1 type {}", image_type)));
       }
     };
 
diff --git a/rawler/src/formats/bmff/mdhd.rs b/rawler/src/formats/bmff/mdhd.rs
index 33e1468..191d003 100644
--- a/rawler/src/formats/bmff/mdhd.rs
+++ b/rawler/src/formats/bmff/mdhd.rs
@@ -2,7 +2,7 @@
 // Copyright 2020 Alfred Gutierrez
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -35,7 +35,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for MdhdBox {
         reader.read_u64::<BigEndian>()?,
       )
     } else {
-      assert_eq!(version, 0);
+      if version != 0 {
+        return Err(BmffError::Parse(format!("unsupported version {} of box {:?}", version, header.typ)));
+      }
       (
         reader.read_u32::<BigEndian>()? as u64,
         reader.read_u32::<BigEndian>()? as u64,
diff --git a/rawler/src/formats/bmff/mvhd.rs b/rawler/src/formats/bmff/mvhd.rs
index 1de61d5..1a33342 100644
--- a/rawler/src/formats/bmff/mvhd.rs
+++ b/rawler/src/formats/bmff/mvhd.rs
@@ -2,7 +2,7 @@
 // Copyright 2020 Alfred Gutierrez
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -36,7 +36,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for MvhdBox {
         reader.read_u64::<BigEndian>()?,
       )
     } else {
-      assert_eq!(version, 0);
+      if version != 0 {
+        return Err(BmffError::Parse(format!("unsupported version {} of box {:?}", version, header.typ)));
+      }
       (
         reader.read_u32::<BigEndian>()? as u64,
         reader.read_u32::<BigEndian>()? as u64,
diff --git a/rawler/src/formats/bmff/stsd.rs b/rawler/src/formats/bmff/stsd.rs
index 209296a..c17465f 100644
--- a/rawler/src/formats/bmff/stsd.rs
+++ b/rawler/src/formats/bmff/stsd.rs
@@ -3,7 +3,7 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use super::{
-  BoxHeader, FourCC, ReadBox, Result,
+  BmffError, BoxHeader, FourCC, ReadBox, Result,
   ext_cr3::{craw::CrawBox, ctmd::CtmdBox},
   read_box_header_ext,
   vendor::VendorBox,
@@ -48,11 +48,15 @@ impl<R: Read + Seek> ReadBox<&mut R> for StsdBox {
 
       match header.typ {
         CrawBox::TYP => {
-          assert_eq!(craw, None, "Found second CRAW box");
+          if craw.is_some() {
+            return Err(BmffError::Parse("Found second CRAW box".into()));
+          }
           craw = Some(CrawBox::read_box(&mut reader, header)?);
         }
         CtmdBox::TYP => {
-          assert_eq!(ctmd, None, "Found second CTMD box");
+          if ctmd.is_some() {
+            return Err(BmffError::Parse("Found second CTMD box".into()));
+          }
           ctmd = Some(CtmdBox::read_box(&mut reader, header)?);
         }
         // TODO: Multiple CRAW boxes can occour in CRM files?! BMFF Spec says the SampleBox is an array.
-- 
2.43.0


From 7b5b83b05589a0dae0cd70c46fbfe0c5603972fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 40/86] fix: first sample of stsc entries is relative to the
 first chunk of the previous entry

---
 rawler/src/formats/bmff/stsc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index 0f9216f..671a4d9 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -2,7 +2,7 @@
 // Copyright 2020 Alfred Gutierrez
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -62,7 +62,12 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
       for _ in 1..entry_count {
         let mut entry = read_entry()?;
         // Now we know the chunk count to calc the amount of samples in holdback
-        entry.first_sample = holdback.first_sample + ((entry.first_chunk - holdback.first_sample) * holdback.samples_per_chunk);
+        entry.first_sample = entry
+          .first_chunk
+          .checked_sub(holdback.first_chunk)
+          .and_then(|chunks| chunks.checked_mul(holdback.samples_per_chunk))
+          .and_then(|samples| samples.checked_add(holdback.first_sample))
+          .ok_or_else(|| BmffError::Parse("invalid stsc entry".into()))?;
         entries.push(holdback);
         holdback = entry;
       }
-- 
2.43.0


From a1f086ec6fe5c39fabbe2beac023216c2b4f3377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 41/86] fix: JFIF thumbnails larger than 255 bytes and APP0
 extension segments

---
 rawler/src/formats/jfif.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index cddd3f8..a18fb88 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -43,7 +43,7 @@ pub struct App0 {
 
 impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
   fn read_segment(reader: &mut R, _symbol: u16) -> Result<Self> {
-    //let pos = reader.stream_position()?;
+    let pos = reader.stream_position()?;
     let len: u64 = reader.read_u16::<BigEndian>()? as u64;
 
     const APP1_JFIF_MARKER: [u8; 5] = [b'J', b'F', b'I', b'F', b'\0'];
@@ -58,13 +58,14 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
         let ydensity = reader.read_u16::<BigEndian>()?;
         let xthumbnail = reader.read_u8()?;
         let ythumbnail = reader.read_u8()?;
-        let thumbnail = if xthumbnail * ythumbnail > 0 {
-          let mut data = vec![0; (3 * xthumbnail * ythumbnail) as usize];
+        let thumbnail = if xthumbnail > 0 && ythumbnail > 0 {
+          let mut data = vec![0; 3 * xthumbnail as usize * ythumbnail as usize];
           reader.read_exact(&mut data)?;
           Some(data)
         } else {
           None
         };
+        reader.seek(SeekFrom::Start(pos + len))?;
         Ok(Self {
           len,
           version,
@@ -76,9 +77,11 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
           thumbnail,
         })
       } else {
+        reader.seek(SeekFrom::Start(pos + len))?;
         Err(JfifError::FormatMismatch("Failed to find JFIF marker in APP0 segment".into()))
       }
     } else {
+      reader.seek(SeekFrom::Start(pos + len))?;
       Err(JfifError::FormatMismatch("APP0 segment is too short".into()))
     }
   }
@@ -224,9 +227,14 @@ impl Jfif {
       let segment = match symbol {
         0xFFD8 => Segment::SOI { offset: pos },
         0xFFD9 => Segment::EOI,
-        0xFFE0 => Segment::APP0 {
-          offset: pos,
-          app0: App0::read_segment(&mut reader, symbol)?,
+        0xFFE0 => match App0::read_segment(&mut reader, symbol) {
+          Ok(app0) => Segment::APP0 { offset: pos, app0 },
+          Err(JfifError::FormatMismatch(msg)) => {
+            // JFIF extension segments like JFXX or other application data
+            log::debug!("Ignoring APP0 segment: {}", msg);
+            Segment::Unknown { offset: pos, marker: symbol }
+          }
+          Err(err) => return Err(err),
         },
         0xFFE1 => match App1::read_segment(&mut reader, symbol) {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
-- 
2.43.0


From 947425d445b80a0769d486a1435e754eb12411e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 42/86] fix: accept fill bytes before JPEG markers

---
 rawler/src/formats/jfif.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index a18fb88..edede5f 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -108,7 +108,7 @@ impl<R: Read + Seek> ReadSegment<&mut R> for SOS {
     loop {
       let v = reader.read_u8()?;
       if prev == 0xFF && v == 0xFF {
-        prev = 0;
+        // Fill byte, the marker code follows later
         continue;
       }
       if prev == 0xFF && (v & !0x7) == 0xD0 {
@@ -265,6 +265,11 @@ impl Jfif {
       }
       pos = reader.stream_position()?;
       sym = reader.read_u16::<BigEndian>().ok();
+      // Any marker may be preceded by fill bytes
+      while sym == Some(0xFFFF) {
+        pos += 1;
+        sym = reader.read_u8().ok().map(|code| 0xFF00 | code as u16);
+      }
     }
     if !segments.is_empty() {
       Ok(Self { segments })
-- 
2.43.0


From aad9f93cc55ec54759ad23dba868d4d7365e5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:35 +0000
Subject: [PATCH 43/86] fix: PPG demosaic must not loop forever on images four
 or five pixels wide

---
 rawler/src/imgop/sensor/bayer/ppg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/imgop/sensor/bayer/ppg.rs b/rawler/src/imgop/sensor/bayer/ppg.rs
index 7fb0cf7..af9cf54 100644
--- a/rawler/src/imgop/sensor/bayer/ppg.rs
+++ b/rawler/src/imgop/sensor/bayer/ppg.rs
@@ -77,7 +77,7 @@ fn interpolate_borders(input: &mut RgbF32, shifted: &CFA) {
     while col < w {
       // Full process first 3 and last 3 rows, process only left and right 3 pixels for all other
       if col == 3 && row >= 3 && row < h - 3 {
-        col = w - 3 // go to right border
+        col = (w - 3).max(col) // go to right border, never backwards on small images
       }
       // Store the pixel sum and count for each RGB channel (R=0, G=1, B=2)
       let mut sum = [(0.0, 0_usize); 3];
-- 
2.43.0


From 35528f8c67dc57fed4bce979c713ad8e9e684050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:22 +0000
Subject: [PATCH 44/86] fix: read the brands of ftyp boxes with a 64 bit size
 correctly

---
 rawler/src/formats/bmff/ftyp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/bmff/ftyp.rs b/rawler/src/formats/bmff/ftyp.rs
index a2ecb44..7c7e616 100644
--- a/rawler/src/formats/bmff/ftyp.rs
+++ b/rawler/src/formats/bmff/ftyp.rs
@@ -23,10 +23,10 @@ impl<R: Read + Seek> ReadBox<&mut R> for FtypBox {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let major = reader.read_u32::<BigEndian>()?;
     let minor = reader.read_u32::<BigEndian>()?;
-    if header.size < 16 || header.size % 4 != 0 {
+    if header.size < header.header_len + 8 || header.size % 4 != 0 {
       return Err(BmffError::Parse("invalid ftyp size".into()));
     }
-    let brand_count = (header.size - 16) / 4; // header + major + minor
+    let brand_count = (header.size - header.header_len - 8) / 4; // without header + major + minor
 
     let mut brands = Vec::new();
     for _ in 0..brand_count {
-- 
2.43.0


From 716a2bf2d2380d6a7a91346852bfbd1729f253a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:56 +0000
Subject: [PATCH 45/86] fix: enabling anonymous FTP logins must not accept any
 password for the other users

---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..7b01c63 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -134,7 +134,7 @@ where
     } else if self.name.is_some() && self.waiting_password {
       if let Command::Pass(content) = cmd {
         let mut ok = false;
-        if self.config.anonymous {
+        if self.config.anonymous && self.name.as_deref() == Some("anonymous") {
           ok = true;
         } else {
           for user in &self.config.users {
-- 
2.43.0


From 518f00f889cc739c1a6618022acabb9de90133b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 46/86] fix: FTP uploads must not follow links out of the
 served directory

---
 embedftp/src/client.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7b01c63..7c97c83 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -14,7 +14,7 @@ use std::net::{IpAddr, SocketAddr};
 use std::path::{Component, Path, PathBuf, StripPrefixError};
 use std::result;
 use std::sync::Arc;
-use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file};
+use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file, symlink_metadata};
 use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
@@ -654,7 +654,15 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
+    let filename = path.file_name().ok_or_else(|| Error::from("No file name"))?;
+    let mut path = self.complete_path(path.parent().unwrap_or(Path::new("/"))).await?.join(filename);
+    // An existing link must not lead out of the server root
+    if symlink_metadata(&path).await.is_ok() {
+      path = canonicalize(&path).await?;
+      if !path.starts_with(&self.server_root) {
+        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+      }
+    }
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
       tokio::fs::write(&path, content.as_ref()).await?;
-- 
2.43.0


From 9c7331ff1f7d51a407e1fc4c388f86ce041665f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 47/86] fix: RMD must not remove the served directory itself

---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7c97c83..849c3ab 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -296,7 +296,7 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
-      if remove_dir_all(dir).await.is_ok() {
+      if dir != self.server_root && remove_dir_all(dir).await.is_ok() {
         self
           .send(Answer::new(ResultCode::RequestedFileActionOkay, "Folder successfully removed"))
           .await?;
-- 
2.43.0


From c2f4ed646632cd29ab044aa058296a494b75b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 48/86] fix: the FTP server denied all requests if its
 directory is given as relative path or contains links

---
 embedftp/src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..f833a41 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -22,6 +22,8 @@ pub async fn serve<T>(handle: Handle, server_root: PathBuf, config: Config, env:
 where
   T: FtpCallback + Clone + Send + Sync + 'static,
 {
+  // Client paths are canonicalized before they are compared with the root
+  let server_root = tokio::fs::canonicalize(server_root).await?;
   let port = config.server_port;
   let addr = SocketAddr::new(config.server_addr, port);
   let listener = TcpListener::bind(&addr).await?;
-- 
2.43.0


From c75c1406cbac3a918fe2ed1c47cc8b7dbeb3a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 49/86] fix: LIST must not show properties of files outside the
 served directory

---
 embedftp/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 849c3ab..1b7c6b7 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -367,7 +367,10 @@ where
           match read_dir(&path).await {
             Ok(mut dir) => {
               while let Ok(Some(entry)) = dir.next_entry().await {
-                add_file_info(entry.path(), &mut out).await;
+                // Links leading out of the root are not shown
+                if canonicalize(entry.path()).await.is_ok_and(|p| p.starts_with(&self.server_root)) {
+                  add_file_info(entry.path(), &mut out).await;
+                }
               }
             }
             Err(_) => {
-- 
2.43.0


From 085ba81351d49f80cf822af16bc58d6cf8dda3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 50/86] fix: CWD must fail if the path is not a directory

---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 1b7c6b7..a692c53 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -332,7 +332,7 @@ where
   async fn cwd(&mut self, directory: PathBuf) -> Result<()> {
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
-    if let Ok(dir) = res {
+    if let Some(dir) = res.ok().filter(|dir| dir.is_dir()) {
       let res = self.strip_prefix(dir);
       if let Ok(prefix) = res {
         self.cwd = prefix.to_path_buf();
-- 
2.43.0


From 9daa52182dc5671ed9559d009f41df1bd04ce0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 51/86] fix: NLST in directories whose names contain pattern
 characters

---
 embedftp/src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index a692c53..c961546 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -408,6 +408,8 @@ where
       let res = self.complete_path(&cwd).await;
       if let Ok(cwd) = res {
         let mut out = vec![];
+        // The directory is no part of the pattern
+        let cwd = PathBuf::from(cwd.to_str().map(glob::Pattern::escape).unwrap_or_default());
 
         let pattern = if let Some(p) = path {
           if p.is_absolute() {
-- 
2.43.0


From 45a0b8df7a569539bf2e1651a04f7024b4367f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 52/86] fix: quotes in the PWD reply must be doubled

---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index c961546..e10e72b 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -108,7 +108,7 @@ where
         Command::Pwd => {
           let msg = self.cwd.to_str().unwrap_or("").to_string(); // small trick
           if !msg.is_empty() {
-            let message = format!("\"{}\" ", msg);
+            let message = format!("\"{}\" ", msg.replace('"', "\"\""));
             return self.send(Answer::new(ResultCode::PATHNAMECreated, &message)).await;
           } else {
             return self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await;
-- 
2.43.0


From 137e7312301d37281b02be8a8b7c74ff149cdfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:37 +0000
Subject: [PATCH 53/86] fix: malformed FTP commands must be answered instead of
 closing the connection

---
 embedftp/src/client.rs  | 4 ++++
 embedftp/src/codec.rs   | 4 ++--
 embedftp/src/command.rs | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index e10e72b..f51dad4 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -210,6 +210,10 @@ where
         let features = [String::from("UTF8")];
         self.send(Answer::new_multiline(ResultCode::SystemStatus, "Feature list", &features)).await?;
       }
+      Command::Invalid(msg) => {
+        warn!("Invalid command: {}", msg);
+        self.send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid parameter or argument")).await?
+      }
       Command::NoOp => self.send(Answer::new(ResultCode::Ok, "Doing nothing")).await?,
       Command::Unknown(s) => {
         warn!("Unknown command");
diff --git a/embedftp/src/codec.rs b/embedftp/src/codec.rs
index d173308..740064e 100644
--- a/embedftp/src/codec.rs
+++ b/embedftp/src/codec.rs
@@ -3,7 +3,6 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use crate::command::Command;
-use crate::error::Error;
 use crate::ftp::Answer;
 use bytes::BytesMut;
 use std::io::{self, Write};
@@ -20,7 +19,8 @@ impl Decoder for FtpCodec {
     if let Some(index) = find_crlf(buf) {
       let line = buf.split_to(index);
       let _ = buf.split_to(2); // Remove \r\n.
-      Command::new(line.to_vec()).map(Some).map_err(Error::to_io_error)
+      // A malformed command must not end the session
+      Ok(Some(Command::new(line.to_vec()).unwrap_or_else(|err| Command::Invalid(err.to_string()))))
     } else {
       Ok(None)
     }
diff --git a/embedftp/src/command.rs b/embedftp/src/command.rs
index 7d8c8f0..5b1e84d 100644
--- a/embedftp/src/command.rs
+++ b/embedftp/src/command.rs
@@ -30,6 +30,7 @@ pub enum Command {
   Type(TransferType),
   CdUp,
   Unknown(String),
+  Invalid(String),
   User(String),
 }
 
@@ -58,6 +59,7 @@ impl AsRef<str> for Command {
       Command::Dele(_) => "DELE",
       Command::NoOp => "NOOP",
       Command::Unknown(_) => "UNKN", // doesn't exist
+      Command::Invalid(_) => "INVL", // doesn't exist
     }
   }
 }
-- 
2.43.0


From f8a2aaff7f9faf4b8fef6932d49aafec87509767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:37 +0000
Subject: [PATCH 54/86] fix: a failed active FTP data connection must be
 answered once and not fall back to an old connection

---
 embedftp/src/client.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index f51dad4..2d38a33 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -239,7 +239,7 @@ where
         Ok(stream) => stream,
         Err(e) => {
           error!("Connection failed to {}, {}", addr, e);
-          self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
+          self.close_data_connection();
           return Ok(());
         }
       };
@@ -396,7 +396,7 @@ where
       }
     } else {
       warn!("No opened data connection");
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
+      self.send(Answer::new(ResultCode::CantOpenDataConnection, "No opened data connection")).await?;
     }
     if self.data_writer.is_some() {
       self.close_data_connection();
@@ -467,7 +467,7 @@ where
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
     } else {
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
+      self.send(Answer::new(ResultCode::CantOpenDataConnection, "No opened data connection")).await?;
     }
     if self.data_writer.is_some() {
       self.close_data_connection();
@@ -623,7 +623,7 @@ where
       }
     } else {
       warn!("No open data connection");
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
+      self.send(Answer::new(ResultCode::CantOpenDataConnection, "No opened data connection")).await?;
     }
     if self.data_writer.is_some() {
       self.close_data_connection();
@@ -656,7 +656,7 @@ where
       }
     } else {
       warn!("No opened data connection");
-      self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
+      self.send(Answer::new(ResultCode::CantOpenDataConnection, "No opened data connection")).await?;
     }
     Ok(())
   }
-- 
2.43.0


From 7c858ab91e3f72b36db0fa2b5d373582d4cd9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 55/86] fix: failing FTP transfers must be answered once and
 close the data connection

---
 embedftp/src/client.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 2d38a33..80ea265 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -378,6 +378,7 @@ where
               }
             }
             Err(_) => {
+              self.close_data_connection();
               self
                 .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
                 .await?;
@@ -390,6 +391,7 @@ where
         self.send_data(out).await?;
       } else {
         warn!("No such file or directory");
+        self.close_data_connection();
         self
           .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
           .await?;
@@ -417,10 +419,10 @@ where
 
         let pattern = if let Some(p) = path {
           if p.is_absolute() {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
               .await?;
-            self.close_data_connection();
             return Ok(());
           }
           cwd.join(p)
@@ -431,6 +433,7 @@ where
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
           Some(Ok(matches)) => matches,
           _ => {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
               .await?;
@@ -464,6 +467,7 @@ where
 
         self.send_data(out).await?;
       } else {
+        self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
     } else {
@@ -589,6 +593,7 @@ where
             Ok(file) => file,
             Err(e) => {
               error!("Failed to open file {:?}, {}", path, e);
+              self.close_data_connection();
               self
                 .send(Answer::new(
                   ResultCode::LocalErrorInProcessing,
@@ -605,6 +610,7 @@ where
           }
         } else {
           warn!("No path, not exist");
+          self.close_data_connection();
           self
             .send(Answer::new(
               ResultCode::LocalErrorInProcessing,
@@ -614,6 +620,7 @@ where
         }
       } else {
         warn!("No path");
+        self.close_data_connection();
         self
           .send(Answer::new(
             ResultCode::LocalErrorInProcessing,
-- 
2.43.0


From 464ce5faf79df6c6bf6f839d9a8c8dbcea5f739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 56/86] fix: an aborted FTP transfer must not end the session
 without an answer

---
 embedftp/src/client.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 80ea265..c702821 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -250,6 +250,13 @@ where
     Ok(())
   }
 
+  /// Answer a transfer whose data connection broke down
+  async fn transfer_aborted(&mut self, err: Error) -> Result<()> {
+    warn!("Transfer aborted: {}", err);
+    self.close_data_connection();
+    self.send(Answer::new(ResultCode::ConnectionClosed, "Transfer aborted")).await
+  }
+
   fn close_data_connection(&mut self) {
     self.data_reader = None;
     self.data_writer = None;
@@ -388,7 +395,9 @@ where
         } else {
           add_file_info(path, &mut out).await;
         }
-        self.send_data(out).await?;
+        if let Err(e) = self.send_data(out).await {
+          return self.transfer_aborted(e).await;
+        }
       } else {
         warn!("No such file or directory");
         self.close_data_connection();
@@ -465,7 +474,9 @@ where
           }
         }
 
-        self.send_data(out).await?;
+        if let Err(e) = self.send_data(out).await {
+          return self.transfer_aborted(e).await;
+        }
       } else {
         self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
@@ -604,7 +615,9 @@ where
             }
           };
           if let Some(writer) = &mut self.data_writer {
-            tokio::io::copy(&mut file, writer).await?;
+            if let Err(e) = tokio::io::copy(&mut file, writer).await {
+              return self.transfer_aborted(e.into()).await;
+            }
           } else {
             return Err(Error::from("Trying to send data but no data connection is open."));
           }
@@ -649,7 +662,10 @@ where
       self
         .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
         .await?;
-      let data = self.receive_data().await?;
+      let data = match self.receive_data().await {
+        Ok(data) => data,
+        Err(e) => return self.transfer_aborted(e).await,
+      };
       info!("Received file: {:?}, {} bytes", path, data.len());
       self.close_data_connection();
       match self.put_file(path, Arc::new(data)).await {
-- 
2.43.0


From 92fe447a0fe68bc92d3021eb9298c9f73f0f9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 57/86] fix: STOR with a parent directory in the path must be
 answered

---
 embedftp/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index c702821..d026c15 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -656,7 +656,8 @@ where
     self.initiate_data_connection().await?;
     if self.data_reader.is_some() {
       if invalid_path(&path) {
-        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::FileNameNotAllowed, "File name not allowed")).await;
       }
       let path = self.cwd.join(path);
       self
-- 
2.43.0


From bc82dd5abb419efc5ac27f490500bf639f40ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 58/86] fix: EPSV ALL must be answered

---
 embedftp/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index d026c15..11cc001 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -544,8 +544,8 @@ where
 
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
-        self.data_writer = None;
-        return Ok(());
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL accepted")).await;
       }
     }
 
-- 
2.43.0


From 29d614aac35eb7b97528b970f55ee15b826feb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 59/86] fix: PASV and EPSV must be answered with a final reply
 in all states

---
 embedftp/src/client.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 11cc001..9060d91 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -492,10 +492,8 @@ where
   }
 
   async fn pasv(&mut self) -> Result<()> {
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
+    // A new request replaces an unused data connection
+    self.close_data_connection();
     self.active_data_port = None;
     let port = 0; // auto configure port
     let mut addr = self.local_addr;
@@ -533,7 +531,9 @@ where
         }
       }
       IpAddr::V6(_v6addr) => {
-        return Err(Error::Msg("PASV is not possible for IPv6 connections.".into()));
+        self
+          .send(Answer::new(ResultCode::CantOpenDataConnection, "PASV is not possible for IPv6 connections"))
+          .await?;
       }
     }
     Ok(())
@@ -549,10 +549,8 @@ where
       }
     }
 
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
+    // A new request replaces an unused data connection
+    self.close_data_connection();
 
     self.active_data_port = None;
 
-- 
2.43.0


From 02c3ee239cbdfa1ea227381febd17068e65865ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 60/86] fix: FTP commands following QUIT must not be executed

---
 embedftp/src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 9060d91..407c714 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -738,7 +738,11 @@ where
 
   let mut client = Client::new(handle, writer, server_root, config, env, local_addr, remote_addr);
   while let Some(cmd) = reader.try_next().await? {
+    let quit = matches!(cmd, Command::Quit);
     client.handle_cmd(cmd).await?;
+    if quit {
+      break;
+    }
   }
 
   debug!("Client {} closed connection", remote_addr);
-- 
2.43.0


From c2fea60348b2a886949cf0610ec32a1efe6973c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 61/86] fix: failing conversions of FTP uploads must not leave
 an incomplete DNG or destroy an existing one

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 57e8864..5df6233 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -8,7 +8,7 @@ use rawler::decoders::supported_extensions;
 use rawler::rawsource::RawSource;
 use std::ffi::OsStr;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{Cursor, Write};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -38,18 +38,18 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
-      let mut dng = BufWriter::new(File::create(out_path)?);
+      // Only a complete DNG may replace an existing file
+      let mut dng = Cursor::new(Vec::new());
       let _info =
         convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
+      // A link would lead the output to another place
+      if out_path.is_symlink() {
+        std::fs::remove_file(&out_path)?;
+      }
+      let mut file = File::create(out_path)?;
+      file.write_all(dng.get_ref())?;
       if state.params.keep_mtime {
-        if let Err(err) = copy_mtime_from_rawsource(
-          &rawfile,
-          &dng
-            .into_inner()
-            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?,
-          None,
-          &state.params,
-        ) {
+        if let Err(err) = copy_mtime_from_rawsource(&rawfile, &file, None, &state.params) {
           log::warn!("Failed to set mtime, continue anyway: {}", err);
         }
       }
-- 
2.43.0


From d9dbfd8cab64024e5c557ae280de0d67096ea5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 62/86] fix: DNG files made by the FTP server must name the
 same software as other conversions

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 4 ++--
 bin/dnglab/dnglab-lib/src/lib.rs     | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 5df6233..1c14976 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -15,7 +15,7 @@ use std::sync::Arc;
 use tokio::runtime::Handle;
 
 use crate::jobs::raw2dng::copy_mtime_from_rawsource;
-use crate::{PKG_NAME, PKG_VERSION};
+use crate::PKG_VERSION;
 use rawler::dng::convert::{ConvertParams, convert_raw_source};
 
 #[derive(Clone)]
@@ -79,7 +79,7 @@ pub async fn ftpserver(options: &ArgMatches) -> crate::Result<()> {
       .get_one("compression")
       .ok_or_else(|| crate::AppError::InvalidCmdSwitch("compression has no default".into()))?,
     artist: options.get_one("artist").cloned(),
-    software: format!("{} {}", PKG_NAME, PKG_VERSION),
+    software: format!("{} {}", "DNGLab", PKG_VERSION),
     index: 0,
     apply_scaling: false,
     keep_mtime: options.get_flag("keep_mtime"),
diff --git a/bin/dnglab/dnglab-lib/src/lib.rs b/bin/dnglab/dnglab-lib/src/lib.rs
index 6ce733c..af94e94 100644
--- a/bin/dnglab/dnglab-lib/src/lib.rs
+++ b/bin/dnglab/dnglab-lib/src/lib.rs
@@ -22,7 +22,6 @@ pub mod makedng;
 pub mod process_raw;
 
 const PKG_VERSION: &str = env!("CARGO_PKG_VERSION");
-const PKG_NAME: &str = env!("CARGO_PKG_NAME");
 
 #[derive(Error, Debug)]
 pub enum AppError {
-- 
2.43.0


From 2608fc15e095435b5be80e5133c5903d212c2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 63/86] fix: Panasonic format 4 samples at the seam of a split
 block must not take bits from the next block

---
 rawler/src/decoders/rw2/v4decompressor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v4decompressor.rs b/rawler/src/decoders/rw2/v4decompressor.rs
index 2d2e205..5d96ed7 100644
--- a/rawler/src/decoders/rw2/v4decompressor.rs
+++ b/rawler/src/decoders/rw2/v4decompressor.rs
@@ -76,7 +76,13 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     if self.split {
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    let bits = if self.split && byte == 0x3fff {
+      // The data of a split block continues at the start of the same block
+      let block = self.pos - 0x4000;
+      u16::from_le_bytes([self.buffer[block + 0x3fff], self.buffer[block]]) as u32
+    } else {
+      LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32
+    };
     (bits >> ((self.nbits - num) & 7)) & (0x0ffffffffu32 >> (32 - num))
   }
 
-- 
2.43.0


From 50003d6430d9ec858968bc5a095fff70137eeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 64/86] fix: Panasonic format 6 samples below the offset must
 decode to zero

---
 rawler/src/decoders/rw2/v6decompressor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v6decompressor.rs b/rawler/src/decoders/rw2/v6decompressor.rs
index 5396b38..bc67224 100644
--- a/rawler/src/decoders/rw2/v6decompressor.rs
+++ b/rawler/src/decoders/rw2/v6decompressor.rs
@@ -137,7 +137,8 @@ pub(crate) fn decode_panasonic_v6(buf: &[u8], width: usize, height: usize, bps:
               epixel = nonzero[pix % 2];
             }
           }
-          let spix = (epixel as i32).wrapping_sub(0xf);
+          // Unsigned, values below the offset must not pass as small values
+          let spix = (epixel as u32).wrapping_sub(0xf);
           if spix <= spix_compare {
             out[pix] = (spix & spix_compare) as u16;
           } else {
-- 
2.43.0


From fda4d266a6c41faf990cee32b7212b3494e1c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 65/86] fix: Panasonic format 7 files with 12 bits must be read
 with 12 bits per sample

---
 rawler/src/decoders/rw2/v7decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v7decompressor.rs b/rawler/src/decoders/rw2/v7decompressor.rs
index 0ec7d9f..d42774f 100644
--- a/rawler/src/decoders/rw2/v7decompressor.rs
+++ b/rawler/src/decoders/rw2/v7decompressor.rs
@@ -30,7 +30,7 @@ pub(crate) fn decode_panasonic_v7(buf: &[u8], width: usize, height: usize, bps:
         let start = block_id * pixels_per_block;
         let out = &mut out[start..start + pixels_per_block];
         let mut pump = BitPumpLSB::new(block);
-        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(14) as u16);
+        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(bps) as u16);
       }
       Ok(())
     }),
-- 
2.43.0


From cd413cec594b8a9921e5bb5b497fe7e0f25b9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 66/86] fix: Panasonic format 8 strips must be readable up to
 their last bit

---
 rawler/src/decoders/rw2/v8decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v8decompressor.rs b/rawler/src/decoders/rw2/v8decompressor.rs
index 8c2df1b..ac6eaf4 100644
--- a/rawler/src/decoders/rw2/v8decompressor.rs
+++ b/rawler/src/decoders/rw2/v8decompressor.rs
@@ -382,7 +382,7 @@ pub(crate) fn decode_panasonic_v8(rawfile: &RawSource, width: usize, height: usi
   let total_strip_count = (params.num_of_strips_h * params.num_of_strips_v) as usize;
   let mut bitstreams = Vec::with_capacity(total_strip_count);
   for strip_id in 0..total_strip_count {
-    bitstreams.push(rawfile.subview(params.strip_byte_offsets[strip_id] as u64, (params.strip_data_size[strip_id] as u64 + 7) / 8)?);
+    bitstreams.push(rawfile.subview_padded(params.strip_byte_offsets[strip_id] as u64, (params.strip_data_size[strip_id] as u64 + 7) / 8)?);
   }
 
   // Parallel decode multiple strips
-- 
2.43.0


From 72ed2bd52da9638822c93d89262b0a6a5f768061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:25 +0000
Subject: [PATCH 67/86] fix: CRX tile rows must be placed by the tile height

---
 rawler/src/decompressors/crx/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/crx/decoder.rs b/rawler/src/decompressors/crx/decoder.rs
index b67d98d..f0248f2 100644
--- a/rawler/src/decompressors/crx/decoder.rs
+++ b/rawler/src/decompressors/crx/decoder.rs
@@ -732,7 +732,7 @@ fn integrate_cfa(codec: &CodecParams, tiles: &[Tile], cfa_buf: &mut [u16], tile_
   let tile_col_idx = tile_id % codec.tile_cols; // round down
 
   // Offset from top
-  let row_offset = tile_row_idx * codec.tile_width;
+  let row_offset = tile_row_idx * codec.tile_height;
   // Offset from left
   let col_offset = tile_col_idx * codec.tile_width;
   let (row_shift, col_shift) = match plane_id {
-- 
2.43.0


From 19d6b42a17f4626e42c7aacad242cc6b08ef3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 68/86] fix: scaling a CRX line must not change the values that
 predict the next line

---
 rawler/src/decompressors/crx/iquant.rs | 12 +++++++-----
 rawler/src/decompressors/crx/mod.rs    |  6 ------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/rawler/src/decompressors/crx/iquant.rs b/rawler/src/decompressors/crx/iquant.rs
index 8087051..2277fee 100644
--- a/rawler/src/decompressors/crx/iquant.rs
+++ b/rawler/src/decompressors/crx/iquant.rs
@@ -70,7 +70,9 @@ impl CodecParams {
     }
 
     // Entropy decode the current line, then apply inverse quantization
+    // The decoder's own buffer keeps the coded values, they predict the next line.
     self.decode_line(param)?;
+    let mut line = Vec::from(param.decoded_buf());
 
     match q_step {
       Some(q_step) => {
@@ -79,21 +81,21 @@ impl CodecParams {
 
         for i in 0..band.col_start_addon {
           let quant_val = band.q_step_base + ((q_step_tbl_ptr[0] * band.q_step_multi as u32) >> 3) as i32;
-          param.decoded_buf_mut()[i] *= constrain(quant_val, 1, 0x168000);
+          line[i] *= constrain(quant_val, 1, 0x168000);
         }
 
         for i in band.col_start_addon..(band.width - band.col_end_addon) {
           let idx = (i - band.col_start_addon) >> band.level_shift;
           let quant_val = band.q_step_base + ((q_step_tbl_ptr[idx] * band.q_step_multi as u32) >> 3) as i32;
           //eprintln!("{}", quant_val);
-          param.decoded_buf_mut()[i] *= constrain(quant_val, 1, 0x168000);
+          line[i] *= constrain(quant_val, 1, 0x168000);
         }
 
         let last_idx = (band.width - band.col_end_addon - band.col_start_addon - 1) >> band.level_shift;
 
         for i in (band.width - band.col_end_addon)..band.width {
           let quant_val = band.q_step_base + ((q_step_tbl_ptr[last_idx] * band.q_step_multi as u32) >> 3) as i32;
-          param.decoded_buf_mut()[i] *= constrain(quant_val, 1, 0x168000);
+          line[i] *= constrain(quant_val, 1, 0x168000);
         }
       }
       None => {
@@ -108,12 +110,12 @@ impl CodecParams {
         if q_scale != 1 {
           //println!("scale width: {}", band.width);
           for i in 0..band.width {
-            param.decoded_buf_mut()[i] *= q_scale as i32;
+            line[i] *= q_scale as i32;
           }
         }
       }
     }
-    Ok(Vec::from(param.decoded_buf()))
+    Ok(line)
   }
 }
 
diff --git a/rawler/src/decompressors/crx/mod.rs b/rawler/src/decompressors/crx/mod.rs
index b873748..c9a0456 100644
--- a/rawler/src/decompressors/crx/mod.rs
+++ b/rawler/src/decompressors/crx/mod.rs
@@ -407,12 +407,6 @@ impl<'mdat> BandParam<'mdat> {
     // Skip first and last extra pixel
     &self.line_buf[1][1..1 + self.subband_width]
   }
-
-  /// Get decoded buffer
-  fn decoded_buf_mut(&mut self) -> &mut [i32] {
-    // Skip first and last extra pixel
-    &mut self.line_buf[1][1..1 + self.subband_width]
-  }
 }
 
 /// Decompress a MDAT image buffer by given CMP1 box parameters
-- 
2.43.0


From a8b1dde040b3a911b74e5908c8dc593149f83bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 69/86] fix: level correction of CFA data must include the last
 row and column of odd sized images

---
 rawler/src/imgop/raw.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index bc49b0c..41f37a8 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -175,17 +175,22 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   let clip = |v: f32| {
     if v.is_sign_negative() { 0.0 } else { v }
   };
-  // Process two bayer lines at once.
-  raw.par_chunks_exact_mut(width * 2).for_each(|lines| {
-    // It's bayer data, so we have two lines for sure.
-    let (line0, line1) = lines.split_at_mut(width);
-    //line0.array_chunks_mut::<2>().zip(line1.array_chunks_mut::<2>()).for_each(|(a, b)| {
-    line0.chunks_exact_mut(2).zip(line1.chunks_exact_mut(2)).for_each(|(a, b)| {
-      a[0] = clip(a[0] - blacklevel[0]) / max[0];
-      a[1] = clip(a[1] - blacklevel[1]) / max[1];
-      b[0] = clip(b[0] - blacklevel[2]) / max[2];
-      b[1] = clip(b[1] - blacklevel[3]) / max[3];
+  // Correct a single bayer line, an odd width leaves a single pixel at the end.
+  let correct_line = |line: &mut [f32], i: usize| {
+    let mut pairs = line.chunks_exact_mut(2);
+    pairs.by_ref().for_each(|a| {
+      a[0] = clip(a[0] - blacklevel[i]) / max[i];
+      a[1] = clip(a[1] - blacklevel[i + 1]) / max[i + 1];
     });
+    if let [a] = pairs.into_remainder() {
+      *a = clip(*a - blacklevel[i]) / max[i];
+    }
+  };
+  // Process two bayer lines at once, an odd height leaves a single line at the end.
+  raw.par_chunks_mut(width * 2).for_each(|lines| {
+    let (line0, line1) = lines.split_at_mut(width);
+    correct_line(line0, 0);
+    correct_line(line1, 2);
   });
 }
 
-- 
2.43.0


From 35e719da383e55d987e2523454ff442d3704fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 70/86] fix: development must apply black levels of any repeat
 pattern and support monochrome (BlackIsZero) images

---
 rawler/src/imgop/raw.rs | 18 ++++++++++++++++++
 rawler/src/rawimage.rs  | 18 ++++++++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index 41f37a8..abdc5b7 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -194,6 +194,24 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   });
 }
 
+/// Correct data by an arbitrary repeating blacklevel pattern.
+///
+/// The output is between 0.0 .. 1.0.
+pub(crate) fn correct_blacklevel_pattern(raw: &mut [f32], width: usize, cpp: usize, blacklevel: &BlackLevel, whitelevel: &WhiteLevel) {
+  let black = blacklevel.as_vec();
+  let white = whitelevel.as_vec();
+  raw.par_chunks_exact_mut(width * cpp).enumerate().for_each(|(row, line)| {
+    for (col, pixel) in line.chunks_exact_mut(cpp).enumerate() {
+      let offset = ((row % blacklevel.height) * blacklevel.width + col % blacklevel.width) * blacklevel.cpp;
+      for (ch, p) in pixel.iter_mut().enumerate() {
+        let black = black.get(offset + ch).copied().unwrap_or(black[0]);
+        let white = white.get(ch).copied().unwrap_or(white[0]);
+        *p = clip_value(*p - black, 0.0, f32::INFINITY) / (white - black);
+      }
+    }
+  });
+}
+
 #[multiversion(targets("x86_64+avx+avx2", "x86+sse", "aarch64+neon"))]
 pub(crate) fn map_3ch_to_rgb(src: &Color2D<f32, 3>, wb_coeff: &[f32; 4], xyz2cam: [[f32; 3]; 4]) -> RgbF32 {
   let rgb2cam = normalize(multiply(&xyz2cam, &SRGB_TO_XYZ_D65));
diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 510f2e7..660e12c 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -9,7 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::Result;
 use crate::cfa::PlaneColor;
-use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa};
+use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa, correct_blacklevel_pattern};
 use crate::imgop::sensor::SensorType;
 use crate::imgop::{convert_from_f32_scaled_u16, convert_to_f32_unscaled};
 use crate::pixarray::SubPixel;
@@ -142,6 +142,11 @@ impl BlackLevel {
     self.cpp * self.width * self.height
   }
 
+  /// A single level or one level for each pixel of a 2x2 pattern
+  pub(crate) fn is_bayer_pattern(&self) -> bool {
+    matches!((self.levels.len(), self.width, self.height), (1, _, _) | (4, 2, 2))
+  }
+
   // TODO: write test
   pub fn shift(&self, x: usize, y: usize) -> Self {
     if self.sample_count() == 1 {
@@ -519,8 +524,7 @@ impl RawImage {
   pub fn apply_scaling(&mut self) -> crate::Result<()> {
     let mut pixels = self.data.as_f32();
     match &self.photometric {
-      RawPhotometricInterpretation::BlackIsZero => todo!(),
-      RawPhotometricInterpretation::Cfa(_) => {
+      RawPhotometricInterpretation::Cfa(_) if self.blacklevel.is_bayer_pattern() => {
         correct_blacklevel_cfa(
           pixels.to_mut(),
           self.width,
@@ -530,10 +534,16 @@ impl RawImage {
         );
         self.data = RawImageData::Float(pixels.into_owned());
       }
-      RawPhotometricInterpretation::LinearRaw => {
+      RawPhotometricInterpretation::BlackIsZero | RawPhotometricInterpretation::LinearRaw
+        if self.blacklevel.levels.len() == self.cpp && self.whitelevel.0.len() == self.cpp =>
+      {
         correct_blacklevel(pixels.to_mut(), &self.blacklevel.as_vec(), &self.whitelevel.as_vec());
         self.data = RawImageData::Float(pixels.into_owned());
       }
+      _ => {
+        correct_blacklevel_pattern(pixels.to_mut(), self.width, self.cpp, &self.blacklevel, &self.whitelevel);
+        self.data = RawImageData::Float(pixels.into_owned());
+      }
     }
     self.blacklevel.levels.iter_mut().for_each(|x| *x = Rational::new(0, 1));
     self.whitelevel.0.iter_mut().for_each(|x| *x = 1);
-- 
2.43.0


From a521e5624e67b9a93ad9754b439ea15134d9db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 71/86] fix: PPG demosaic must not read outside of images
 smaller than six pixels

---
 rawler/src/imgop/sensor/bayer/ppg.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/sensor/bayer/ppg.rs b/rawler/src/imgop/sensor/bayer/ppg.rs
index af9cf54..746e6d1 100644
--- a/rawler/src/imgop/sensor/bayer/ppg.rs
+++ b/rawler/src/imgop/sensor/bayer/ppg.rs
@@ -117,8 +117,8 @@ fn interpolate_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let ch = shifted.color_at(row, col); // It's R or B
         let x = pixel[ch];
@@ -176,8 +176,8 @@ fn interpolate_rb_at_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) == CFA_COLOR_G {
         let h_ch = shifted.color_at(row, col + 1); // horizontal corresponding channel
         let v_ch = shifted.color_at(row + 1, col); // vertical corresponding channel
@@ -213,8 +213,8 @@ fn interpolate_rb_at_non_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let x_ch = shifted.color_at(row, col); // current
         let y_ch = if x_ch == CFA_COLOR_R { CFA_COLOR_B } else { CFA_COLOR_R };
-- 
2.43.0


From 3bfa8571729be49eb00a69a68d65e1a0cb7cad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 72/86] fix: development must not shift the default crop of
 images without CFA by the active area

---
 rawler/src/imgop/develop.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 9dfdefb..ad8651b 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -185,6 +185,11 @@ impl RawDevelop {
       _ => todo!(),
     };
 
+    // Only CFA images are cropped to the active area (while demosaicing).
+    let active_area_cropped = self.steps.contains(&ProcessingStep::Demosaic)
+      && self.steps.contains(&ProcessingStep::CropActiveArea)
+      && matches!((&rawimage.photometric, &intermediate), (RawPhotometricInterpretation::Cfa(_), Intermediate::Monochrome(_)));
+
     if self.steps.contains(&ProcessingStep::Demosaic) {
       intermediate = match &rawimage.photometric {
         RawPhotometricInterpretation::Cfa(config) => {
@@ -290,7 +295,7 @@ impl RawDevelop {
       log::debug!("Crop: {:?}", rawimage.crop_area);
       log::debug!("active_area: {:?}", rawimage.active_area);
       if let Some(mut crop) = rawimage.crop_area.or(rawimage.active_area) {
-        if self.steps.contains(&ProcessingStep::Demosaic) && self.steps.contains(&ProcessingStep::CropActiveArea) {
+        if active_area_cropped {
           // If active area crop was already applied during demosaic, we need to
           // adapt default crop to active area crop.
           if let Some(active_area) = &rawimage.active_area {
-- 
2.43.0


From 8c4d8bf2b49f2241a70fdee479b1290b2e54edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 73/86] fix: developed TIFF must not truncate image dimensions
 to 16 bits

---
 rawler/src/imgop/develop.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index ad8651b..25af9fb 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -370,8 +370,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::ThreeColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -386,8 +386,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [3_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::FourColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -402,8 +402,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [4_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
     }
 
-- 
2.43.0


From 47ae1dbeda32cc6d4e9dfb561fc02cac40d8fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 74/86] fix: process-raw --keep-mtime must not fail for files
 with an invalid date

---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 76d1c30..b779305 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -60,7 +60,12 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
   let decoder = rawler::get_decoder(rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
   let metadata = decoder.raw_metadata(rawfile, &raw_params)?;
-  if let Some(ts) = metadata.last_modified()?.or(fallback) {
+  // Cameras without a running clock write dates that are no dates, the fallback applies then, too.
+  let last_modified = metadata.last_modified().unwrap_or_else(|err| {
+    log::warn!("Unable to get modification time from metadata: {}", err);
+    None
+  });
+  if let Some(ts) = last_modified.or(fallback) {
     file.set_modified(ts)?;
     let datetime: chrono::DateTime<Local> = ts.into();
     log::debug!("Set mtime for output file to {}", datetime.format("%d/%m/%Y %T"));
-- 
2.43.0


From 386adaf1b278ae51e0bed22a73a32e16a9f140a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 75/86] fix: interpolate the chroma of 4:2:0 images between the
 right rows

---
 rawler/src/decoders/cr2.rs | 70 ++------------------------------------
 rawler/src/imgop/yuv.rs    | 57 +++++++++++++++----------------
 2 files changed, 29 insertions(+), 98 deletions(-)

diff --git a/rawler/src/decoders/cr2.rs b/rawler/src/decoders/cr2.rs
index 8f14f2b..be302b7 100644
--- a/rawler/src/decoders/cr2.rs
+++ b/rawler/src/decoders/cr2.rs
@@ -30,6 +30,7 @@ use crate::formats::tiff::reader::TiffReader;
 use crate::imgop::Dim2;
 use crate::imgop::Point;
 use crate::imgop::Rect;
+use crate::imgop::yuv::interpolate_yuv;
 use crate::lens::LensDescription;
 use crate::lens::LensResolver;
 use crate::rawimage::CFAConfig;
@@ -620,73 +621,6 @@ impl<'a> Cr2Decoder<'a> {
     }
   }
 
-  /// Interpolate YCbCr (YUV) data
-  fn interpolate_yuv(&self, ljpeg: &LjpegDecompressor, width: usize, _height: usize, image: &mut [u16]) {
-    if ljpeg.super_h() == 1 && ljpeg.super_v() == 1 {
-      return; // No interpolation needed
-    }
-    // Iterate over a block of 3 rows, smaller chunks are okay
-    // but must always a multiple of row width.
-    image.par_chunks_mut(width * 3).for_each(|slice| {
-      // Do horizontal interpolation.
-      // [y1 Cb Cr ] [ y2 . . ] [y1 Cb Cr ] [ y2 . . ] ...
-      if ljpeg.super_h() == 2 {
-        debug_assert_eq!(slice.len() % width, 0);
-        for row in 0..(slice.len() / width) {
-          for col in (6..width).step_by(6) {
-            let pix1 = row * width + col - 6;
-            let pix2 = pix1 + 3;
-            let pix3 = row * width + col;
-            slice[pix2 + 1] = ((slice[pix1 + 1] as i32 + slice[pix3 + 1] as i32 + 1) / 2) as u16;
-            slice[pix2 + 2] = ((slice[pix1 + 2] as i32 + slice[pix3 + 2] as i32 + 1) / 2) as u16;
-          }
-        }
-      }
-      // Do vertical interpolation
-      //          pixel n      pixel n+1       pixel n+2    pixel n+3       ...
-      // row i  : [y1 Cb  Cr ] [ y2 Cb*  Cr* ] [y1 Cb  Cr ] [ y2 Cb*  Cr* ] ...
-      // row i+1: [y3 Cb* Cr*] [ y4 Cb** Cr**] [y3 Cb* Cr*] [ y4 Cb** Cr**] ...
-      // row i+2: [y1 Cb  Cr ] [ y2 Cb*  Cr* ] [y1 Cb  Cr ] [ y2 Cb*  Cr* ] ...
-      // row i+3: [y3 Cb* Cr*] [ y4 Cb** Cr**] [y3 Cb* Cr*] [ y4 Cb** Cr**] ...
-      if ljpeg.super_v() == 2 && slice.len() == width * 3 {
-        for col in (0..width).step_by(3) {
-          let pix1 = col;
-          let pix2 = width + col;
-          let pix3 = 2 * width + col;
-          slice[pix2 + 1] = ((slice[pix1 + 1] as i32 + slice[pix3 + 1] as i32 + 1) / 2) as u16;
-          slice[pix2 + 2] = ((slice[pix1 + 2] as i32 + slice[pix3 + 2] as i32 + 1) / 2) as u16;
-        }
-      }
-    });
-
-    /* Old non-parallel code
-    if ljpeg.super_h() == 2 {
-      for row in 0..height {
-        for col in (6..width).step_by(6) {
-          let pix1 = row * width + col - 6;
-          let pix2 = pix1 + 3;
-          let pix3 = row * width + col;
-          image[pix2 + 1] = ((image[pix1 + 1] as i32 + image[pix3 + 1] as i32 + 1) / 2) as u16;
-          image[pix2 + 2] = ((image[pix1 + 2] as i32 + image[pix3 + 2] as i32 + 1) / 2) as u16;
-        }
-      }
-    }
-
-
-    if ljpeg.super_v() == 2 {
-      for row in (1..height - 1).step_by(2) {
-        for col in (0..width).step_by(3) {
-          let pix1 = (row - 1) * width + col;
-          let pix2 = row * width + col;
-          let pix3 = (row + 1) * width + col;
-          image[pix2 + 1] = ((image[pix1 + 1] as i32 + image[pix3 + 1] as i32 + 1) / 2) as u16;
-          image[pix2 + 2] = ((image[pix1 + 2] as i32 + image[pix3 + 2] as i32 + 1) / 2) as u16;
-        }
-      }
-    }
-    */
-  }
-
   /// Convert YCbCr (YUV) data to linear RGB
   fn convert_to_rgb(
     &self,
@@ -710,7 +644,7 @@ impl<'a> Cr2Decoder<'a> {
       .map(|id| id.parse::<bool>().expect("RAWLER_CR2_YUV_INTERPOLATE must by of type bool"))
       .unwrap_or(true);
     if do_interpolate {
-      self.interpolate_yuv(ljpeg, width, height, image);
+      interpolate_yuv(ljpeg.super_h(), ljpeg.super_v(), width, height, image);
     }
 
     let coeffs = self.get_sraw_wb(rawfile, cam)?;
diff --git a/rawler/src/imgop/yuv.rs b/rawler/src/imgop/yuv.rs
index 7405e5e..58f9c6b 100644
--- a/rawler/src/imgop/yuv.rs
+++ b/rawler/src/imgop/yuv.rs
@@ -31,41 +31,38 @@ pub fn ycbcr_to_rgb(buf: &mut [u16]) {
 }
 
 /// Interpolate YCbCr (YUV) data
-pub fn interpolate_yuv(super_h: usize, super_v: usize, width: usize, _height: usize, image: &mut [u16]) {
+pub fn interpolate_yuv(super_h: usize, super_v: usize, width: usize, height: usize, image: &mut [u16]) {
   if super_h == 1 && super_v == 1 {
     return; // No interpolation needed
   }
-  // Iterate over a block of 3 rows, smaller chunks are okay
-  // but must always a multiple of row width.
-  image.par_chunks_mut(width * 3).for_each(|slice| {
-    // Do horizontal interpolation.
-    // [y1 Cb Cr ] [ y2 . . ] [y1 Cb Cr ] [ y2 . . ] ...
-    if super_h == 2 {
-      debug_assert_eq!(slice.len() % width, 0);
-      for row in 0..(slice.len() / width) {
-        for col in (6..width).step_by(6) {
-          let pix1 = row * width + col - 6;
-          let pix2 = pix1 + 3;
-          let pix3 = row * width + col;
-          slice[pix2 + 1] = ((slice[pix1 + 1] as i32 + slice[pix3 + 1] as i32 + 1) / 2) as u16;
-          slice[pix2 + 2] = ((slice[pix1 + 2] as i32 + slice[pix3 + 2] as i32 + 1) / 2) as u16;
-        }
+  // Do horizontal interpolation.
+  // [y1 Cb Cr ] [ y2 . . ] [y1 Cb Cr ] [ y2 . . ] ...
+  if super_h == 2 {
+    image.par_chunks_exact_mut(width).for_each(|line| {
+      for col in (6..width).step_by(6) {
+        let pix1 = col - 6;
+        let pix2 = pix1 + 3;
+        let pix3 = col;
+        line[pix2 + 1] = ((line[pix1 + 1] as i32 + line[pix3 + 1] as i32 + 1) / 2) as u16;
+        line[pix2 + 2] = ((line[pix1 + 2] as i32 + line[pix3 + 2] as i32 + 1) / 2) as u16;
       }
-    }
-    // Do vertical interpolation
-    //          pixel n      pixel n+1       pixel n+2    pixel n+3       ...
-    // row i  : [y1 Cb  Cr ] [ y2 Cb*  Cr* ] [y1 Cb  Cr ] [ y2 Cb*  Cr* ] ...
-    // row i+1: [y3 Cb* Cr*] [ y4 Cb** Cr**] [y3 Cb* Cr*] [ y4 Cb** Cr**] ...
-    // row i+2: [y1 Cb  Cr ] [ y2 Cb*  Cr* ] [y1 Cb  Cr ] [ y2 Cb*  Cr* ] ...
-    // row i+3: [y3 Cb* Cr*] [ y4 Cb** Cr**] [y3 Cb* Cr*] [ y4 Cb** Cr**] ...
-    if super_v == 2 && slice.len() == width * 3 {
+    });
+  }
+  // Do vertical interpolation
+  //          pixel n      pixel n+1       pixel n+2    pixel n+3       ...
+  // row i  : [y1 Cb  Cr ] [ y2 Cb*  Cr* ] [y1 Cb  Cr ] [ y2 Cb*  Cr* ] ...
+  // row i+1: [y3 Cb* Cr*] [ y4 Cb** Cr**] [y3 Cb* Cr*] [ y4 Cb** Cr**] ...
+  // row i+2: [y1 Cb  Cr ] [ y2 Cb*  Cr* ] [y1 Cb  Cr ] [ y2 Cb*  Cr* ] ...
+  // row i+3: [y3 Cb* Cr*] [ y4 Cb** Cr**] [y3 Cb* Cr*] [ y4 Cb** Cr**] ...
+  if super_v == 2 {
+    for row in (1..height.saturating_sub(1)).step_by(2) {
       for col in (0..width).step_by(3) {
-        let pix1 = col;
-        let pix2 = width + col;
-        let pix3 = 2 * width + col;
-        slice[pix2 + 1] = ((slice[pix1 + 1] as i32 + slice[pix3 + 1] as i32 + 1) / 2) as u16;
-        slice[pix2 + 2] = ((slice[pix1 + 2] as i32 + slice[pix3 + 2] as i32 + 1) / 2) as u16;
+        let pix1 = (row - 1) * width + col;
+        let pix2 = row * width + col;
+        let pix3 = (row + 1) * width + col;
+        image[pix2 + 1] = ((image[pix1 + 1] as i32 + image[pix3 + 1] as i32 + 1) / 2) as u16;
+        image[pix2 + 2] = ((image[pix1 + 2] as i32 + image[pix3 + 2] as i32 + 1) / 2) as u16;
       }
     }
-  });
+  }
 }
-- 
2.43.0


From 3423682d42f9b0e8c34184729c0208991c87992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 76/86] fix: 4:2:0 sRAW images with a last slice of another
 width

---
 rawler/src/decoders/cr2.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rawler/src/decoders/cr2.rs b/rawler/src/decoders/cr2.rs
index be302b7..2fe4f02 100644
--- a/rawler/src/decoders/cr2.rs
+++ b/rawler/src/decoders/cr2.rs
@@ -191,11 +191,9 @@ impl<'a> Decoder for Cr2Decoder<'a> {
             if decompressor.super_v() == 2 {
               debug!("CR2 v=2 decoder used, h={}", decompressor.super_h());
               // We've decoded 2 lines at a time so we also need to copy two strips at a time
-              let nfields = fieldwidths.len();
-              let fieldwidth = fieldwidths[0];
               let mut fieldstart = 0;
               let mut inpos = 0;
-              for _ in 0..nfields {
+              for fieldwidth in fieldwidths {
                 for row in (0..height).step_by(2) {
                   for col in (0..fieldwidth).step_by(3) {
                     let outpos = row * width + fieldstart + col;
-- 
2.43.0


From 47917966d8520286a12c2d9adbe1905a31405882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 77/86] fix: use the pattern of the selected mode for Olympus
 high resolution files

---
 rawler/src/decoders/orf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/orf.rs b/rawler/src/decoders/orf.rs
index a252073..b55413f 100644
--- a/rawler/src/decoders/orf.rs
+++ b/rawler/src/decoders/orf.rs
@@ -227,7 +227,7 @@ impl<'a> Decoder for OrfDecoder<'a> {
     let cpp = 1;
     let blacklevel = self.get_blacklevel(bps)?;
     let whitelevel = None;
-    let photometric = RawPhotometricInterpretation::Cfa(CFAConfig::new_from_camera(&self.camera));
+    let photometric = RawPhotometricInterpretation::Cfa(CFAConfig::new_from_camera(&camera));
     let mut img = RawImage::new(camera, image, cpp, normalize_wb(self.get_wb()?), photometric, blacklevel, whitelevel, dummy);
     if let Some(crop) = self.get_crop()? {
       img.crop_area = Some(crop);
-- 
2.43.0


From 034cf3afab454d46031fc3eb770ef727cacd69fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 78/86] fix: refuse TIFF output whose offsets do not fit 32
 bits instead of wrapping them

---
 rawler/src/formats/tiff/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..756d0ed 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -134,7 +134,8 @@ where
   W: Seek,
 {
   pub fn position(&mut self) -> Result<u32> {
-    Ok(self.writer.stream_position().map(|v| v as u32)?) // TODO: try_from?
+    let pos = self.writer.stream_position()?;
+    u32::try_from(pos).map_err(|_| TiffError::General(format!("Position {} exceeds the 4 GiB limit of TIFF files", pos)))
   }
 }
 
-- 
2.43.0


From 46987b8992909454d5ff0e02c61704ff12578eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 79/86] fix: ftpserver honours --image-index

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 1c14976..179807d 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -80,7 +80,7 @@ pub async fn ftpserver(options: &ArgMatches) -> crate::Result<()> {
       .ok_or_else(|| crate::AppError::InvalidCmdSwitch("compression has no default".into()))?,
     artist: options.get_one("artist").cloned(),
     software: format!("{} {}", "DNGLab", PKG_VERSION),
-    index: 0,
+    index: options.get_one::<String>("index").and_then(|index| index.parse().ok()).unwrap_or(0),
     apply_scaling: false,
     keep_mtime: options.get_flag("keep_mtime"),
   };
-- 
2.43.0


From 674676cce14e38f2fa824c1c72f5cea263bee009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 80/86] fix: embed originals whose file name is not valid
 unicode under a name

---
 rawler/src/dng/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index 9cb0bb3..1c1d36f 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -79,7 +79,8 @@ impl Default for ConvertParams {
 /// how to handle existing target files, buffering, etc.
 /// This is up to the caller.
 pub fn convert_raw_file<W: Write + Seek + Send>(raw: &Path, dng: &mut W, params: &ConvertParams) -> crate::Result<ConvertInfo> {
-  let original_filename = raw.file_name().and_then(OsStr::to_str).unwrap_or_default();
+  // The name is embedded as text, also if it is not valid unicode
+  let original_filename = raw.file_name().map(OsStr::to_string_lossy).unwrap_or_default();
   //let raw_stream = BufReader::new(File::open(raw)?); // TODO: add path hint to error?
   //let rawfile = RawFile::new(PathBuf::from(raw), raw_stream);
 
-- 
2.43.0


From aad7a9d7cf567fb9299f03a1e97ddb1191c6396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 81/86] fix: keep output file names that are not valid unicode

---
 bin/dnglab/dnglab-lib/src/convert.rs     | 25 +++++++++-----------
 bin/dnglab/dnglab-lib/src/process_raw.rs | 29 ++++++++++++------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index b439cfa..27d6c75 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -146,8 +146,7 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
   let base_stem = output
     .file_stem()
     .ok_or_else(|| AppError::General("Output path has no file stem".into()))?
-    .to_string_lossy()
-    .into_owned();
+    .to_os_string();
 
   // Pick the lowest disambiguation suffix `k` such that every frame's output
   // path is free within this run's already-claimed outputs.
@@ -159,18 +158,16 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
   //   multi  frame, k=0:    FOO_<i>.dng                      (i = 0..batch_count)
   //   multi  frame, k>0:    FOO_<k>_<i>.dng
   let resolve_frame = |k: usize, frame: usize| -> PathBuf {
-    let stem = if multi_frame {
-      if k == 0 {
-        format!("{}_{:04}", base_stem, frame)
-      } else {
-        format!("{}_{}_{:04}", base_stem, k, frame)
-      }
-    } else if k == 0 {
-      base_stem.clone()
-    } else {
-      format!("{}_{}", base_stem, k)
-    };
-    output.with_file_name(format!("{}.dng", stem))
+    // Names are not always valid unicode
+    let mut name = base_stem.clone();
+    if k > 0 {
+      name.push(format!("_{}", k));
+    }
+    if multi_frame {
+      name.push(format!("_{:04}", frame));
+    }
+    name.push(".dng");
+    output.with_file_name(name)
   };
 
   let collides = |path: &PathBuf| -> bool {
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index f67e7f6..f111ad0 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -148,24 +148,25 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
 
     output.set_extension("tif");
 
-    let file_name = String::from(
-      output
-        .file_stem()
-        .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
-        .to_string_lossy(),
-    );
-    if do_batch && batch_count > 1 {
-      output.set_file_name(format!("{}_{:04}.tif", file_name, i));
-    }
+    // Names are not always valid unicode
+    let file_stem = output.file_stem().ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?.to_os_string();
+    let numbered = |suffix: usize| {
+      let mut name = file_stem.clone();
+      if suffix > 0 {
+        name.push(format!("_{}", suffix));
+      }
+      if do_batch && batch_count > 1 {
+        name.push(format!("_{:04}", i));
+      }
+      name.push(".tif");
+      name
+    };
+    output.set_file_name(numbered(0));
 
     let mut suffix = 0;
     while !claimed.insert(output.clone()) {
       suffix += 1;
-      if do_batch && batch_count > 1 {
-        output.set_file_name(format!("{}_{}_{:04}.tif", file_name, suffix, i));
-      } else {
-        output.set_file_name(format!("{}_{}.tif", file_name, suffix));
-      }
+      output.set_file_name(numbered(suffix));
     }
 
     match output.parent() {
-- 
2.43.0


From fb17b74c3adef0204c8a946c6678262b7ccc29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 82/86] fix: process-raw honours --crop and --artist

---
 rawler/src/imgop/develop.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 25af9fb..0161760 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -57,9 +57,19 @@ pub fn process_raw_image<W: Write + Seek + Send>(raw: &Path, image_file: &mut W,
   let rawfile = RawSource::new(raw)?;
   let decoder = crate::get_decoder(&rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
-  let rawimage = decoder.raw_image(&rawfile, &raw_params, false)?;
-  let metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
-  let develop = RawDevelop::default();
+  let mut rawimage = decoder.raw_image(&rawfile, &raw_params, false)?;
+  let mut metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
+  if let Some(artist) = &params.artist {
+    metadata.exif.artist = Some(artist.clone());
+  }
+  let mut develop = RawDevelop::default();
+  match params.crop {
+    CropMode::Best => {}
+    CropMode::ActiveArea => rawimage.crop_area = None,
+    CropMode::None => develop
+      .steps
+      .retain(|step| !matches!(step, ProcessingStep::CropActiveArea | ProcessingStep::CropDefault)),
+  }
   develop.develop(&rawimage, &metadata, image_file)?;
   Ok(())
 }
-- 
2.43.0


From 18b0dafcae2caf93028037c8af79718dafd63810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 83/86] fix: analyze --srgb writes monochrome images as PGM

---
 bin/dnglab/dnglab-lib/src/analyze.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/analyze.rs b/bin/dnglab/dnglab-lib/src/analyze.rs
index 9b4ea7e..07d9b08 100644
--- a/bin/dnglab/dnglab-lib/src/analyze.rs
+++ b/bin/dnglab/dnglab-lib/src/analyze.rs
@@ -80,10 +80,13 @@ pub async fn analyze(options: &ArgMatches) -> crate::Result<()> {
     let rgb = full.into_rgb8();
     dump_rgb8_ppm8(rgb.width() as usize, rgb.height() as usize, rgb.as_flat_samples().samples)?;
   } else if options.get_flag("srgb") {
-    // TODO: only RGB output is supported
     let image = raw_to_srgb(PathBuf::from(in_file), &RawDecodeParams::default())?;
     let samples = image.as_flat_samples_u16().ok_or_else(|| anyhow::anyhow!("image is not u16 format"))?;
-    dump_ppm16(image.width() as usize, image.height() as usize, samples.samples)?;
+    if image.color().has_color() {
+      dump_ppm16(image.width() as usize, image.height() as usize, samples.samples)?;
+    } else {
+      dump_pgm(image.width() as usize, image.height() as usize, samples.samples)?;
+    }
   }
   Ok(())
 }
-- 
2.43.0


From 21a817076a2ac358d77a55c2fe0058b2ccb558dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 84/86] fix: short or unknown lens records must not panic

---
 rawler/src/decoders/arw.rs          | 23 ++++++++++++---------
 rawler/src/decoders/cr2.rs          |  8 +++++++-
 rawler/src/decoders/cr3.rs          |  4 ++--
 rawler/src/decoders/nef/lensdata.rs | 32 ++++++++++++++++++++++-------
 rawler/src/decoders/orf.rs          |  2 +-
 rawler/src/decoders/pef.rs          |  3 +++
 rawler/src/decoders/rw2.rs          |  7 +++++--
 7 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/rawler/src/decoders/arw.rs b/rawler/src/decoders/arw.rs
index 9552f00..a925d15 100644
--- a/rawler/src/decoders/arw.rs
+++ b/rawler/src/decoders/arw.rs
@@ -264,14 +264,21 @@ impl<'a> ArwDecoder<'a> {
       .ok_or_else(|| "EXIF IFD not found".into())
   }
 
+  /// Enciphered makernote record of at least `len` bytes
+  fn lens_record(&self, tag: ArwMakernoteTag, len: usize) -> Option<&Vec<u8>> {
+    match self.makernote.get_entry(tag) {
+      Some(Entry {
+        value: Value::Undefined(params),
+        ..
+      }) if params.len() >= len => Some(params),
+      _ => None,
+    }
+  }
+
   /// Get lens description by analyzing TIFF tags and makernotes
   fn get_lens_description(&self) -> Result<Option<&'static LensDescription>> {
     // Try tag 0x9416
-    if let Some(Entry {
-      value: Value::Undefined(params),
-      ..
-    }) = self.makernote.get_entry(ArwMakernoteTag::Tag_9416)
-    {
+    if let Some(params) = self.lens_record(ArwMakernoteTag::Tag_9416, 0x004b + 2) {
       let dechiphered_9416 = sony_tag9cxx_decipher(params);
       let lens_id = LEu16(&dechiphered_9416, 0x004b);
       debug!("Lens Id tag: {}", lens_id);
@@ -303,11 +310,7 @@ impl<'a> ArwDecoder<'a> {
     }
 
     // Try tag 0x940C
-    if let Some(Entry {
-      value: Value::Undefined(params),
-      ..
-    }) = self.makernote.get_entry(ArwMakernoteTag::Tag_940C)
-    {
+    if let Some(params) = self.lens_record(ArwMakernoteTag::Tag_940C, 9 + 2) {
       let dechiphered_940c = sony_tag9cxx_decipher(params);
       let lens_id = LEu16(&dechiphered_940c, 9);
       debug!("Lens Id tag: {}", lens_id);
diff --git a/rawler/src/decoders/cr2.rs b/rawler/src/decoders/cr2.rs
index 2fe4f02..e15cf2a 100644
--- a/rawler/src/decoders/cr2.rs
+++ b/rawler/src/decoders/cr2.rs
@@ -441,7 +441,13 @@ impl<'a> Cr2Decoder<'a> {
       Some(Entry {
         value: Value::Short(settings), ..
       }) => {
-        let lens_info = settings[22];
+        let lens_info = match settings.get(22) {
+          Some(lens_info) => *lens_info,
+          None => {
+            log::warn!("Camera settings in makernote too short, no lens data available");
+            return Ok(None);
+          }
+        };
         debug!("Lens Info tag: {}", lens_info);
         let resolver = LensResolver::new()
           .with_lens_keyname(exif_lens_name)
diff --git a/rawler/src/decoders/cr3.rs b/rawler/src/decoders/cr3.rs
index a90d4cf..bbc45c6 100644
--- a/rawler/src/decoders/cr3.rs
+++ b/rawler/src/decoders/cr3.rs
@@ -458,11 +458,11 @@ impl<'a> Cr3Decoder<'a> {
   fn read_lens_id(&self) -> Result<LensId> {
     let mut id = (0, 0);
     if let Some(Entry { value: Value::Short(v), .. }) = self.cmt3.get_entry(Cr3MakernoteTag::CameraSettings) {
-      id.0 = v[22] as u32;
+      id.0 = v.get(22).copied().unwrap_or(0) as u32;
     }
 
     if let Some(Entry { value: Value::Short(v), .. }) = self.cmt3.get_entry(Cr3MakernoteTag::FileInfo) {
-      id.1 = v[61] as u32;
+      id.1 = v.get(61).copied().unwrap_or(0) as u32;
     }
     Ok(id)
   }
diff --git a/rawler/src/decoders/nef/lensdata.rs b/rawler/src/decoders/nef/lensdata.rs
index bd1121e..27943c8 100644
--- a/rawler/src/decoders/nef/lensdata.rs
+++ b/rawler/src/decoders/nef/lensdata.rs
@@ -1,6 +1,9 @@
 use crate::Result;
 use crate::bits::LEu16;
-use crate::{decoders::nef::NikonMakernote, formats::tiff::IFD};
+use crate::{
+  decoders::nef::NikonMakernote,
+  formats::tiff::{IFD, Value},
+};
 
 const ERRMSG: &str = "Lens composite buffer error: EOF";
 
@@ -55,12 +58,21 @@ impl NefLensDataF {
 
 pub(super) fn from_makernote(makernote: &IFD) -> Result<Option<NefLensData>> {
   if let Some(levels) = makernote.get_entry(NikonMakernote::LensData) {
-    let mut buf = levels.get_data().clone();
+    let mut buf = match &levels.value {
+      Value::Byte(data) | Value::Undefined(data) | Value::Unknown(_, data) => data.clone(),
+      _ => {
+        log::warn!("NEF lens data has an unexpected type");
+        return Ok(None);
+      }
+    };
 
-    let mut version: u32 = 0;
-    for i in 0..4 {
-      version = (version << 4) + (buf[i] - b'0') as u32;
-    }
+    let version = match buf.get(..4) {
+      Some(digits) if digits.iter().all(u8::is_ascii_digit) => digits.iter().fold(0, |version, digit| (version << 4) + (digit - b'0') as u32),
+      _ => {
+        log::warn!("NEF lens data without version");
+        return Ok(None);
+      }
+    };
 
     let lensdata = match version {
       0x100 => NefLensData::FMount(parse_lensdata_0x100(version, &buf)?),
@@ -95,7 +107,10 @@ pub(super) fn from_makernote(makernote: &IFD) -> Result<Option<NefLensData>> {
         parse_lensdata_0x800(version, &buf)?
       }
 
-      _ => todo!("Lensdata version: 0x{:x} not implemented", version),
+      _ => {
+        log::warn!("NEF lens data version 0x{:x} is unknown. {}", version, crate::ISSUE_HINT);
+        return Ok(None);
+      }
     };
 
     log::debug!("NEF lens data version: 0x{:x}, lensdata: {:?}", version, lensdata);
@@ -173,6 +188,9 @@ fn parse_lensdata_0x4xx(version: u32, buf: &[u8], model_offset: usize) -> Result
 }
 
 fn parse_lensdata_0x800(version: u32, buf: &[u8]) -> Result<NefLensData> {
+  if buf.len() < 0x30 + 2 {
+    return Err(ERRMSG.into());
+  }
   // This check comes from exiftool. If the buffer contains only zeros,
   // we consider the block as unused. Hopefully we find another method...
   let old_data_avail = !buf[0x04..0x04 + 16].iter().all(|&x| x == 0);
diff --git a/rawler/src/decoders/orf.rs b/rawler/src/decoders/orf.rs
index b55413f..11d1883 100644
--- a/rawler/src/decoders/orf.rs
+++ b/rawler/src/decoders/orf.rs
@@ -401,7 +401,7 @@ impl<'a> OrfDecoder<'a> {
       match ifd.get_entry(OrfEquipmentTags::LensType) {
         Some(Entry {
           value: Value::Byte(settings), ..
-        }) => {
+        }) if settings.len() >= 4 => {
           log::debug!("Lens type tag: {:?}", settings);
           let make_id = settings[0];
           let model_id = settings[2];
diff --git a/rawler/src/decoders/pef.rs b/rawler/src/decoders/pef.rs
index f40eef6..726a569 100644
--- a/rawler/src/decoders/pef.rs
+++ b/rawler/src/decoders/pef.rs
@@ -231,6 +231,9 @@ impl<'a> PefDecoder<'a> {
       value: Value::Byte(settings), ..
     }) = self.makernote.get_entry(PefMakernote::LensRec)
     {
+      if settings.len() < 2 {
+        return Ok(None);
+      }
       let lens_id = (settings[0] as u32, settings[1] as u32);
       debug!("LensRec tag: {:?}", lens_id);
       if [0, 1, 2].contains(&lens_id.0) {
diff --git a/rawler/src/decoders/rw2.rs b/rawler/src/decoders/rw2.rs
index 8750419..b991c42 100644
--- a/rawler/src/decoders/rw2.rs
+++ b/rawler/src/decoders/rw2.rs
@@ -86,8 +86,11 @@ impl<'a> Rw2Decoder<'a> {
     };
     let camera = rawloader.check_supported_with_mode(tiff.root_ifd(), mode)?;
 
-    let camera_ifd = if let Some(ifd) = tiff.get_entry(PanasonicTag::CameraIFD) {
-      let buf = ifd.get_data();
+    let camera_ifd = if let Some(Entry {
+      value: Value::Undefined(buf) | Value::Byte(buf) | Value::Unknown(_, buf),
+      ..
+    }) = tiff.get_entry(PanasonicTag::CameraIFD)
+    {
       match IFD::new_root(&mut std::io::Cursor::new(buf), 0) {
         Ok(ifd) => Some(ifd),
         Err(_) => None,
-- 
2.43.0


From 4fa4ac3baa25240565622f7db11be5f56fe89ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 85/86] fix: keep the lens of DNG sources

---
 rawler/src/exif.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rawler/src/exif.rs b/rawler/src/exif.rs
index 6e0e2ce..4d8cfc2 100644
--- a/rawler/src/exif.rs
+++ b/rawler/src/exif.rs
@@ -161,6 +161,13 @@ impl Exif {
           (ExifTag::OwnerName, Value::Ascii(data)) => self.owner_name = data.strings().get(0).map(trim),
           (ExifTag::SerialNumber, Value::Ascii(data)) => self.serial_number = data.strings().get(0).map(trim),
           (ExifTag::LensSerialNumber, Value::Ascii(data)) => self.lens_serial_number = data.strings().get(0).map(trim),
+          (ExifTag::LensSpecification, Value::Rational(data)) => {
+            if let [min_focal, max_focal, min_f, max_f] = data[..] {
+              self.lens_spec = Some([min_focal, max_focal, min_f, max_f]);
+            }
+          }
+          (ExifTag::LensMake, Value::Ascii(data)) => self.lens_make = data.strings().get(0).map(trim),
+          (ExifTag::LensModel, Value::Ascii(data)) => self.lens_model = data.strings().get(0).map(trim),
           (ExifTag::UserComment, Value::Ascii(data)) => self.user_comment = data.strings().get(0).map(trim),
           //(ExifTag::MakerNotes, Value::Undefined(data)) => self.makernotes = Some(data.clone()),
           (tag, _value) => {
-- 
2.43.0


From b9b23cd847eb7c6dd3462b438d1f881bd73ac7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 86/86] fix: Pentax preview borders and origin

---
 rawler/src/decoders/pef.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/rawler/src/decoders/pef.rs b/rawler/src/decoders/pef.rs
index 726a569..f18de47 100644
--- a/rawler/src/decoders/pef.rs
+++ b/rawler/src/decoders/pef.rs
@@ -149,10 +149,13 @@ impl<'a> Decoder for PefDecoder<'a> {
         let len = length.force_u32(0);
         let offset = start.force_u32(0);
         if len > 0 && offset > 0 {
-          let buf = file.subview((self.makernote_offset + offset) as u64, len as u64)?;
-          match image::load_from_memory_with_format(buf, image::ImageFormat::Jpeg) {
-            Ok(img) => Some(img),
-            Err(_) => {
+          let corrected = file
+            .subview(self.makernote_offset as u64 + offset as u64, len as u64)
+            .ok()
+            .and_then(|buf| image::load_from_memory_with_format(buf, image::ImageFormat::Jpeg).ok());
+          match corrected {
+            Some(img) => Some(img),
+            None => {
               // Test offset without correction
               let buf = file.subview(offset as u64, len as u64)?;
               let img = image::load_from_memory_with_format(buf, image::ImageFormat::Jpeg)
@@ -174,14 +177,16 @@ impl<'a> Decoder for PefDecoder<'a> {
         value: Value::Byte(borders), ..
       }) = self.makernote.get_entry(PefMakernote::PreviewImageBorders)
       {
-        let y = borders[0] as u32;
-        let x = borders[2] as u32;
-        let width = image.width() - x - borders[3] as u32;
-        let height = image.height() - y - borders[1] as u32;
-        return Ok(Some(image.crop_imm(x, y, width, height)));
-      } else {
-        return Ok(Some(image));
+        if let [top, bottom, left, right] = borders.get(..4).unwrap_or_default() {
+          let (x, y) = (*left as u32, *top as u32);
+          let width = image.width().saturating_sub(x + *right as u32);
+          let height = image.height().saturating_sub(y + *bottom as u32);
+          if width > 0 && height > 0 {
+            return Ok(Some(image.crop_imm(x, y, width, height)));
+          }
+        }
       }
+      return Ok(Some(image));
     }
 
     Ok(None)
-- 
2.43.0

