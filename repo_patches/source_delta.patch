From c97bad7c66ca2abbe1691fbd09df584c9a47aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:32 +0000
Subject: [PATCH 01/26] fix: TokioReader reads the whole requested range

The read buffer was created with capacity but zero length, so every read
returned no bytes and failed with EndOfFile. A single read call may also
legitimately return fewer bytes than asked for.
---
 src/reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..914af34 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -112,9 +112,11 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
 
         file.seek(SeekFrom::Start(range.start)).await?;
 
-        let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        let to_read = range.end.saturating_sub(range.start);
+        let mut buffer = Vec::new();
+        // `read` may return fewer bytes than requested, so read until the range is complete or the
+        // end of the file is reached.
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From a85d95747778abce447dbbbfae313877a492a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:43 +0000
Subject: [PATCH 02/26] fix: ReqwestReader returns no bytes for an empty range

'end - 1' underflowed for 0..0, the byte range of a sparse tile, and other
empty ranges were sent as an invalid Range header, for which servers return
the whole file.
---
 src/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 914af34..b76215c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -202,6 +202,11 @@ impl ReqwestReader {
     }
 
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
+        // An empty range can't be expressed as an HTTP range
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-- 
2.43.0


From dfbdff1f42178b7bf99810221b1e531f6955b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:44 +0000
Subject: [PATCH 03/26] fix: ReqwestReader handles servers that ignore the
 Range header

A 200 response carries the whole file, which was returned as if it were the
requested range.
---
 src/reader.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b76215c..46723d8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -210,15 +210,22 @@ impl ReqwestReader {
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-        let range = format!("bytes={}-{}", range.start, range.end - 1);
+        let range_header = format!("bytes={}-{}", range.start, range.end - 1);
         let response = client
             .get(url)
-            .header("Range", range)
+            .header("Range", range_header)
             .send()
             .await?
             .error_for_status()?;
+        let is_partial = response.status() == reqwest::StatusCode::PARTIAL_CONTENT;
         let bytes = response.bytes().await?;
-        Ok(bytes)
+        if is_partial {
+            Ok(bytes)
+        } else {
+            // The server ignored the Range header and sent the whole file.
+            let len = bytes.len() as u64;
+            Ok(bytes.slice(range.start.min(len) as usize..range.end.min(len) as usize))
+        }
     }
 }
 
-- 
2.43.0


From ce6b911770adca47b99cc37b60c233a9c9081ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:21 +0000
Subject: [PATCH 04/26] fix: detect cycles in the list of IFDs

A file whose IFD chain loops back made read_all_ifds read forever.
---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..4704a6d 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// Offsets of the IFDs that were already read, to detect cycles in the list of IFDs.
+    visited_ifd_offsets: HashSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            visited_ifd_offsets: HashSet::new(),
         })
     }
 
@@ -112,12 +115,16 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.visited_ifd_offsets.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
             self.next_ifd_offset = next_ifd_offset;
+            self.visited_ifd_offsets.insert(ifd_start);
             Ok(Some(ifd))
         } else {
             Ok(None)
-- 
2.43.0


From 6735014872436729d8ce775f14e028b08a395f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:21 +0000
Subject: [PATCH 05/26] fix: readahead cache allocates only what it returns

A range reaching far past the end of the file made the cache reserve the
requested length, which aborts the process for large lengths, and a large
multiplier overflowed the end of the fetched range.
---
 src/metadata/cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..62b9d1a 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,6 +79,8 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
+            // The requested range may be longer than what the source was able to provide
+            let out_len = out_buffers.iter().map(|b| b.len()).sum();
             let mut out = BytesMut::with_capacity(out_len);
             for b in out_buffers {
                 out.extend_from_slice(&b);
@@ -158,7 +157,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
-- 
2.43.0


From 29304f02e6321378bbc06187a90680d8a3bae19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:38 +0000
Subject: [PATCH 06/26] fix: reverse the predictor band by band for planar
 images

The predictor stride used the number of samples per pixel although each
plane holds a single sample per pixel, which garbled the decoded values.
---
 src/tile.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..8113943 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -122,6 +122,12 @@ impl Tile {
             }
         };
 
+        // Each band of a planar image is predicted on its own.
+        let predictor_samples = match self.planar_configuration {
+            PlanarConfiguration::Chunky => samples,
+            PlanarConfiguration::Planar => 1,
+        };
+
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
@@ -131,12 +137,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                predictor_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From 2c1286225e8cee9fc4b33301aa35a8f75f1b4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:55 +0000
Subject: [PATCH 07/26] fix: report unknown predictors and planar
 configurations

Unknown values were silently treated as no predictor and as chunky, which
decodes to wrong pixels.
---
 src/ifd.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..a31bd11 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -231,7 +231,10 @@ impl ImageFileDirectory {
                     _ => unreachable!("Expected rational type for YResolution."),
                 },
                 Tag::PlanarConfiguration => {
-                    planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
+                    let value = value.into_u16()?;
+                    planar_configuration = Some(PlanarConfiguration::from_u16(value).ok_or(
+                        TiffError::FormatError(TiffFormatError::UnknownPlanarConfiguration(value)),
+                    )?)
                 }
                 Tag::ResolutionUnit => {
                     resolution_unit = ResolutionUnit::from_u16(value.into_u16()?)
@@ -240,7 +243,12 @@ impl ImageFileDirectory {
                 Tag::DateTime => date_time = Some(value.into_string()?),
                 Tag::Artist => artist = Some(value.into_string()?),
                 Tag::HostComputer => host_computer = Some(value.into_string()?),
-                Tag::Predictor => predictor = Predictor::from_u16(value.into_u16()?),
+                Tag::Predictor => {
+                    let value = value.into_u16()?;
+                    predictor = Some(Predictor::from_u16(value).ok_or(TiffError::FormatError(
+                        TiffFormatError::UnknownPredictor(value),
+                    ))?)
+                }
                 Tag::ColorMap => color_map = Some(Arc::from(value.into_u16_vec()?)),
                 Tag::TileWidth => tile_width = Some(value.into_u32()?),
                 Tag::TileLength => tile_height = Some(value.into_u32()?),
-- 
2.43.0


From ea4aed44b2b5c4c7c4c626b99876cb99d4e1ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:23 +0000
Subject: [PATCH 08/26] fix: bounds-check tile indices

Out of range columns silently returned the byte range of a different tile,
and out of range rows, missing offsets or byte counts and zero tile sizes
panicked.
---
 src/ifd.rs | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index a31bd11..f44c5ec 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -728,11 +728,15 @@ impl ImageFileDirectory {
     }
 
     /// Find the byte range(s) for the tile located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if there is no such tile.
     pub fn tile_byte_range(&self, x: usize, y: usize) -> Option<TileByteRange> {
         TileByteRange::from_ifd_tile(self, x, y)
     }
 
     /// Find the byte ranges for the tiles located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if any of the tiles doesn't exist.
     pub fn tiles_byte_ranges(&self, xy: &[(usize, usize)]) -> Option<TilesByteRanges> {
         TilesByteRanges::from_ifd_tiles(self, xy)
     }
@@ -747,9 +751,9 @@ impl ImageFileDirectory {
         y: usize,
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Tile> {
-        let byte_ranges = self
-            .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tile_byte_range(x, y).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF, or tile out of bounds".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -760,9 +764,9 @@ impl ImageFileDirectory {
         xy: &[(usize, usize)],
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Vec<Tile>> {
-        let byte_ranges = self
-            .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tiles_byte_ranges(xy).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF, or tile out of bounds".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -774,8 +778,10 @@ impl ImageFileDirectory {
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
-        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
-        let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
+        let tile_width = self.tile_width.filter(|width| *width > 0)?;
+        let tile_height = self.tile_height.filter(|height| *height > 0)?;
+        let x_count = (self.image_width as f64 / tile_width as f64).ceil();
+        let y_count = (self.image_height as f64 / tile_height as f64).ceil();
         Some((x_count as usize, y_count as usize))
     }
 }
@@ -804,24 +810,31 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                let offset = *tile_offsets.get(idx)?;
+                let byte_count = *tile_byte_counts.get(idx)?;
+                Some(TileByteRange::Chunky(
+                    offset..offset.checked_add(byte_count)?,
+                ))
             }
             PlanarConfiguration::Planar => {
-                let tiles_per_band = tiles_per_row * tiles_per_col;
+                let tiles_per_band = tiles_per_row.checked_mul(tiles_per_col)?;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = band
+                            .checked_mul(tiles_per_band)?
+                            .checked_add((y * tiles_per_row) + x)?;
+                        let offset = *tile_offsets.get(band_idx)?;
+                        let byte_count = *tile_byte_counts.get(band_idx)?;
+                        Some(offset..offset.checked_add(byte_count)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From 425fa780d3339848a734d39093194f7253675dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 09/26] fix: return errors for unknown tag types and truncated
 tag values

These panicked: unknown field types, a value byte length that overflows, and
inline byte values at the end of a truncated file.
---
 src/metadata/reader.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 4704a6d..56bf33a 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -278,9 +278,10 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type = Type::from_u16(tag_type_code).ok_or(TiffError::FormatError(
+        TiffFormatError::InvalidTagValueType(tag_name),
+    ))?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
@@ -320,7 +321,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
@@ -422,8 +423,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::Byte(data.read_u8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 };
             }
@@ -431,8 +432,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::SignedByte(data.read_i8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 }
             }
-- 
2.43.0


From 6a68071c3d36dc15cf45bcb4c218f7b842383ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:18 +0000
Subject: [PATCH 10/26] fix: parse inline ASCII values like out-of-line ones

Inline strings that are not NUL-terminated or not ASCII panicked, and the
same string with an embedded NUL gave a different value depending on whether
it was stored inline.
---
 src/metadata/reader.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 56bf33a..06e2c13 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -363,14 +363,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::LONG => TagValue::Unsigned(data.read_u32()?),
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
-            Type::ASCII => {
-                if data.as_ref()[0] == 0 {
-                    TagValue::Ascii("".to_string())
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
-            }
+            Type::ASCII => ascii_value(vec![data.read_u8()?]),
             Type::LONG8 => {
                 let offset = data.read_u32()?;
                 cursor.seek(offset as _);
@@ -440,15 +433,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::ASCII => {
                 let mut buf = vec![0; count as usize];
                 data.read_exact(&mut buf)?;
-                if buf.is_ascii() && buf.ends_with(&[0]) {
-                    let v = std::str::from_utf8(&buf)
-                        .map_err(|err| AsyncTiffError::General(err.to_string()))?;
-                    let v = v.trim_matches(char::from(0));
-                    return Ok(TagValue::Ascii(v.into()));
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
+                return Ok(ascii_value(buf));
             }
             Type::SHORT => {
                 let mut v = Vec::new();
@@ -623,16 +608,20 @@ async fn read_tag_value<F: MetadataFetch>(
             let mut out = vec![0; count as _];
             let mut buf = cursor.read(count).await?;
             buf.read_exact(&mut out)?;
-
-            // Strings may be null-terminated, so we trim anything downstream of the null byte
-            if let Some(first) = out.iter().position(|&b| b == 0) {
-                out.truncate(first);
-            }
-            Ok(TagValue::Ascii(String::from_utf8_lossy(&out).into_owned()))
+            Ok(ascii_value(out))
         }
     }
 }
 
+/// Create the value of an ASCII tag from its bytes
+fn ascii_value(mut out: Vec<u8>) -> TagValue {
+    // Strings may be null-terminated, so we trim anything downstream of the null byte
+    if let Some(first) = out.iter().position(|&b| b == 0) {
+        out.truncate(first);
+    }
+    TagValue::Ascii(String::from_utf8_lossy(&out).into_owned())
+}
+
 #[cfg(test)]
 mod test {
     use async_trait::async_trait;
-- 
2.43.0


From 7438775f5331163c64f6624faea94ed9df7ca5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:19 +0000
Subject: [PATCH 11/26] fix: don't allocate according to unverified tag and
 value counts

A corrupt count aborted the process with a capacity overflow or an
out-of-memory error.
---
 src/metadata/reader.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 06e2c13..ee0842d 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -234,7 +234,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::new();
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -501,63 +501,63 @@ async fn read_tag_value<F: MetadataFetch>(
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -567,7 +567,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -577,37 +577,40 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
+            let mut out = Vec::new();
             let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
+            buf.read_to_end(&mut out)?;
+            if out.len() as u64 != count {
+                return Err(AsyncTiffError::EndOfFile(count, out.len() as u64));
+            }
             Ok(ascii_value(out))
         }
     }
-- 
2.43.0


From 1a93b835f48af3b44a82f4754475888928fe8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:21 +0000
Subject: [PATCH 12/26] fix: return an error when IFD offsets overflow

---
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index ee0842d..1073e74 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -222,13 +222,21 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
     }
 
+    /// The byte offset of the entry with the given index.
+    fn entry_offset(&self, idx: u64) -> AsyncTiffResult<u64> {
+        self.ifd_entry_byte_size
+            .checked_mul(idx)
+            .and_then(|offset| offset.checked_add(self.tag_count_byte_size))
+            .and_then(|offset| offset.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError.into())
+    }
+
     /// Read all tags out of this IFD.
     ///
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
@@ -245,9 +253,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
-- 
2.43.0


From ff03ac47bbc0e90adbdaa09d0c0a853eca1b42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:56 +0000
Subject: [PATCH 13/26] fix: return an error for missing or mistyped required
 tags

ImageFileDirectory::from_tags panicked on files without these tags, with an
empty BitsPerSample, or with resolutions that are not rationals.
---
 src/ifd.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index f44c5ec..ac6e062 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -224,11 +224,19 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InvalidTagValueType(tag),
+                        ))
+                    }
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InvalidTagValueType(tag),
+                        ))
+                    }
                 },
                 Tag::PlanarConfiguration => {
                     let value = value.into_u16()?;
@@ -380,7 +388,15 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let required = |tag| TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag));
+        let samples_per_pixel = samples_per_pixel.ok_or(required(Tag::SamplesPerPixel))?;
+        let bits_per_sample = bits_per_sample.ok_or(required(Tag::BitsPerSample))?;
+        if bits_per_sample.is_empty() {
+            return Err(TiffError::FormatError(TiffFormatError::RequiredTagEmpty(
+                Tag::BitsPerSample,
+            ))
+            .into());
+        }
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -393,14 +409,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or(required(Tag::ImageWidth))?,
+            image_height: image_height.ok_or(required(Tag::ImageLength))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or(required(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From 4aa741c2c3acb90f0bdb480fc8c163bfaecaa640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 14/26] fix: return an error for malformed GeoKey directories

Unsupported versions, truncated directories, and keys that point outside of
or at missing parameter tags panicked.
---
 src/ifd.rs | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index ac6e062..8d5e3fd 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -311,25 +311,22 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let invalid = || TiffError::FormatError(TiffFormatError::InvalidTag);
+            let mut chunks = data.chunks_exact(4);
 
-            let header = chunks
-                .next()
-                .expect("If the geo key directory exists, a header should exist.");
+            let header = chunks.next().ok_or_else(invalid)?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
-
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_directory_version != 1 || key_revision != 1 {
+                return Err(invalid().into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
             let mut tags = HashMap::with_capacity(number_of_keys as usize);
             for _ in 0..number_of_keys {
-                let chunk = chunks
-                    .next()
-                    .expect("There should be a chunk for each key.");
+                let chunk = chunks.next().ok_or_else(invalid)?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -352,11 +349,11 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoAsciiParams, then we
                     // need to extract a subslice from GeoAsciiParams
 
-                    let geo_ascii_params = geo_ascii_params
-                        .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
+                    let geo_ascii_params = geo_ascii_params.as_ref().ok_or_else(invalid)?;
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(invalid)?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -369,17 +366,15 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoDoubleParams, then we
                     // need to extract a subslice from GeoDoubleParams
 
-                    let geo_double_params = geo_double_params
-                        .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
+                    let geo_double_params = geo_double_params.as_ref().ok_or_else(invalid)?;
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(invalid)?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From 6d585ae5cf6e7f7e3797646e8b9d2d96149a06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:15 +0000
Subject: [PATCH 15/26] fix: return an error for corrupt LZW data instead of
 panicking

---
 src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..abff25a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,7 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
+        let decoded = decoder
+            .decode(&buffer)
+            .map_err(|err| AsyncTiffError::External(Box::new(err)))?;
         Ok(decoded)
     }
 }
-- 
2.43.0


From 67b00cc165c36a04b1db761cc13d21ccf05c9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:16 +0000
Subject: [PATCH 16/26] fix: don't panic on JPEG tables shorter than a marker

---
 src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index abff25a..6fbfcdd 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -381,8 +381,8 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_len = jpeg_tables.len().saturating_sub(2);
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From 86bda371716848b38da38b835753c0f3880bfe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:17 +0000
Subject: [PATCH 17/26] fix: decode 16-bit JPEG2000 tiles

bytemuck::cast_vec panics when the alignment of the element type differs, so
decoding a 16-bit JPEG2000 tile always panicked.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6fbfcdd..5af46a9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -276,7 +276,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From 69d6558f1e8598e098c966655ec4fe1d2f3a4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:12 +0000
Subject: [PATCH 18/26] fix: return an error when a predictor can't be applied

Unsupported sample sizes and decoded data that is not a whole number of rows
panicked or decoded to garbage.
---
 src/predictor.rs | 20 ++++++++++++++++++--
 src/tile.rs      |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..c02fc60 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,20 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
+) -> AsyncTiffResult<Vec<u8>> {
+    if !matches!(bits_per_sample, 8 | 16 | 32 | 64) {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
     let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
     let row_stride = tile_width * samples * bytes_per_sample;
+    if row_stride == 0 || !buffer.len().is_multiple_of(row_stride) {
+        return Err(AsyncTiffError::General(format!(
+            "Decoded tile length {} is not a multiple of the row size {row_stride}",
+            buffer.len()
+        )));
+    }
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +78,7 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -120,6 +131,11 @@ pub(crate) fn unpredict_float(
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
+    if row_stride == 0 {
+        return Err(AsyncTiffError::General(format!(
+            "Floating-point predictor not supported for empty rows or {bits_per_sample}-bit samples"
+        )));
+    }
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index 8113943..3e9327a 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -140,7 +140,7 @@ impl Tile {
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From 772f10c54790f7e4455b64983f765c5e54acac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:13 +0000
Subject: [PATCH 19/26] fix: check the decoded size of each band of planar
 tiles

Corrupt dimensions overflowed or reserved an unbounded buffer, and a size
mismatch was only caught in debug builds.
---
 src/array.rs |  7 +++++--
 src/tile.rs  | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..e00db74 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -1,7 +1,7 @@
 use bytemuck::{cast_slice, cast_vec, try_cast_vec};
 
 use crate::data_type::DataType;
-use crate::error::{AsyncTiffError, AsyncTiffResult};
+use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError};
 
 /// A 3D array that represents decoded TIFF image data.
 #[derive(Debug, Clone)]
@@ -29,7 +29,10 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or(TiffError::IntSizeError)?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
diff --git a/src/tile.rs b/src/tile.rs
index 3e9327a..50dfbf1 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -2,7 +2,7 @@ use bytes::Bytes;
 
 use crate::array::Array;
 use crate::decoder::DecoderRegistry;
-use crate::error::{AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError};
 use crate::ifd::CompressedBytes;
 use crate::predictor::{fix_endianness, unpredict_float, unpredict_hdiff};
 use crate::reader::Endianness;
@@ -100,10 +100,12 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let band_size = tile_width
+                    .checked_mul(self.height as usize)
+                    .and_then(|size| size.checked_mul(bits_per_sample as usize))
+                    .ok_or(TiffError::IntSizeError)?
+                    .div_ceil(8);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -114,10 +116,18 @@ impl Tile {
                         bits_per_sample,
                         self.lerc_parameters.as_deref(),
                     )?;
+                    if decoded_band.len() != band_size {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::UnexpectedCompressedData {
+                                actual_bytes: decoded_band.len(),
+                                required_bytes: band_size,
+                            },
+                        )
+                        .into());
+                    }
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From 04300dc620d409ccbc420039a139b75a676c5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:15 +0000
Subject: [PATCH 20/26] fix: accept a single LONG or LONG8 value in
 into_u16_vec

Lists of these were accepted, and so was the scalar in into_u16.
---
 src/tag_value.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tag_value.rs b/src/tag_value.rs
index 4b4d4e9..d3e7bdd 100644
--- a/src/tag_value.rs
+++ b/src/tag_value.rs
@@ -237,6 +237,8 @@ impl TagValue {
             }
             Byte(val) => Ok(vec![val.into()]),
             Short(val) => Ok(vec![val]),
+            Unsigned(val) => Ok(vec![u16::try_from(val)?]),
+            UnsignedBig(val) => Ok(vec![u16::try_from(val)?]),
             val => Err(TiffError::FormatError(TiffFormatError::ShortExpected(val))),
         }
     }
-- 
2.43.0


From fbe5c6a1acbf42494f55fa495999fbcec2243820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 21/26] fix: read_all_ifds can be retried after an error

IFDs read before a failure were lost: the reader had already moved past
them, so a retry returned only the remaining ones.
---
 src/metadata/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 1073e74..86717c2 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -20,6 +20,7 @@ use crate::{ImageFileDirectory, TIFF};
 /// let mut metadata_reader = TiffMetadataReader::try_open(&fetch).await?;
 /// let ifds = metadata_reader.read_all_ifds(&fetch).await?;
 /// ```
+#[derive(Clone)]
 pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
@@ -132,14 +133,19 @@ impl TiffMetadataReader {
     }
 
     /// Read all IFDs from the file.
+    ///
+    /// If this fails, the position of this reader is unchanged.
     pub async fn read_all_ifds<F: MetadataFetch>(
         &mut self,
         fetch: &F,
     ) -> AsyncTiffResult<Vec<ImageFileDirectory>> {
+        // The IFDs read so far are lost on failure, so only advance once all of them are read.
+        let mut reader = self.clone();
         let mut ifds = vec![];
-        while let Some(ifd) = self.read_next_ifd(fetch).await? {
+        while let Some(ifd) = reader.read_next_ifd(fetch).await? {
             ifds.push(ifd);
         }
+        *self = reader;
         Ok(ifds)
     }
 
-- 
2.43.0


From ab189a152d2900d8a7c5d4f5e3ad8f45b57bca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:06 +0000
Subject: [PATCH 22/26] fix: floating-point predictor requires complete rows

A last, incomplete row was decoded to values unrelated to the stored
ones.
---
 src/predictor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c02fc60..3622617 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -131,9 +131,10 @@ pub(crate) fn unpredict_float(
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
-    if row_stride == 0 {
+    if row_stride == 0 || !buffer.len().is_multiple_of(row_stride) {
         return Err(AsyncTiffError::General(format!(
-            "Floating-point predictor not supported for empty rows or {bits_per_sample}-bit samples"
+            "Floating-point predictor can't be applied to {} bytes in rows of {row_stride} bytes",
+            buffer.len()
         )));
     }
     let mut out = vec![0u8; buffer.len()];
-- 
2.43.0


From 067fe0d364ea9b2ac23d073d112260210f9764b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:17 +0000
Subject: [PATCH 23/26] fix: fail to fetch a tile if the reader returns too few
 bytes

Readers may return fewer bytes than requested when a range reaches past
the end of the file. Tiles of truncated files were returned with
whatever was there.
---
 src/ifd.rs | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 8d5e3fd..e089be0 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -797,6 +797,35 @@ impl ImageFileDirectory {
     }
 }
 
+/// Fetch `ranges`, one buffer for each of them.
+async fn fetch_ranges(
+    reader: &dyn AsyncFileReader,
+    ranges: Vec<Range<u64>>,
+) -> AsyncTiffResult<Vec<Bytes>> {
+    let buffers = reader.get_byte_ranges(ranges.clone()).await?;
+    check_fetched(&ranges, &buffers)?;
+    Ok(buffers)
+}
+
+/// Check that the reader returned all the requested bytes. Readers may return fewer if a range
+/// reaches past the end of the file.
+fn check_fetched(ranges: &[Range<u64>], buffers: &[Bytes]) -> AsyncTiffResult<()> {
+    if buffers.len() != ranges.len() {
+        return Err(AsyncTiffError::General(format!(
+            "Expected {} buffers from reader, got {}",
+            ranges.len(),
+            buffers.len()
+        )));
+    }
+    for (range, buffer) in ranges.iter().zip(buffers) {
+        let (expected, actual) = (range.end - range.start, buffer.len() as u64);
+        if actual != expected {
+            return Err(AsyncTiffError::EndOfFile(expected, actual));
+        }
+    }
+    Ok(())
+}
+
 /// A description of the byte ranges for a tile, which may differ based on whether the TIFF is in
 /// chunky or planar format.
 pub enum TileByteRange {
@@ -810,10 +839,14 @@ pub enum TileByteRange {
 impl TileByteRange {
     async fn into_fetch(self, reader: &dyn AsyncFileReader) -> AsyncTiffResult<CompressedBytes> {
         match self {
-            Self::Chunky(range) => Ok(CompressedBytes::Chunky(reader.get_bytes(range).await?)),
-            Self::Planar(ranges) => Ok(CompressedBytes::Planar(
-                reader.get_byte_ranges(ranges).await?,
-            )),
+            Self::Chunky(range) => {
+                let buffer = reader.get_bytes(range.clone()).await?;
+                check_fetched(&[range], std::slice::from_ref(&buffer))?;
+                Ok(CompressedBytes::Chunky(buffer))
+            }
+            Self::Planar(ranges) => {
+                Ok(CompressedBytes::Planar(fetch_ranges(reader, ranges).await?))
+            }
         }
     }
 
@@ -868,14 +901,14 @@ impl TilesByteRanges {
     ) -> AsyncTiffResult<Vec<CompressedBytes>> {
         match self {
             Self::Chunky(ranges) => {
-                let buffers = reader.get_byte_ranges(ranges).await?;
+                let buffers = fetch_ranges(reader, ranges).await?;
                 Ok(buffers.into_iter().map(CompressedBytes::Chunky).collect())
             }
             Self::Planar(ranges) => {
                 // Record how many bands each tile has, then flatten into a single fetch
                 let band_counts: Vec<usize> = ranges.iter().map(|r| r.len()).collect();
                 let flat_ranges: Vec<Range<u64>> = ranges.into_iter().flatten().collect();
-                let flat_buffers = reader.get_byte_ranges(flat_ranges).await?;
+                let flat_buffers = fetch_ranges(reader, flat_ranges).await?;
                 // Re-chunk the flat results back into per-tile band vecs
                 let mut flat_iter = flat_buffers.into_iter();
                 band_counts
-- 
2.43.0


From ccada4ff401d407116eeca42c31b2dcdb4d2cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:26 +0000
Subject: [PATCH 24/26] fix: don't allocate for the claimed number of GeoKeys

---
 src/ifd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index e089be0..d271f31 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -324,7 +324,7 @@ impl ImageFileDirectory {
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
-            let mut tags = HashMap::with_capacity(number_of_keys as usize);
+            let mut tags = HashMap::new();
             for _ in 0..number_of_keys {
                 let chunk = chunks.next().ok_or_else(invalid)?;
 
-- 
2.43.0


From 3095da3dc8e0d1d9bce0ceb9bb80a4a1de95c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 25/26] fix: readahead cache reads sources shorter than the
 readahead

A source that fails on ranges past its end, like TokioReader, made every request through the
cache fail for files shorter than the readahead, also for ranges inside the file.
---
 src/metadata/cache.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 62b9d1a..be0eee0 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -7,7 +7,7 @@ use async_trait::async_trait;
 use bytes::{Bytes, BytesMut};
 use tokio::sync::Mutex;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffError, AsyncTiffResult};
 use crate::metadata::MetadataFetch;
 
 /// Logic for managing a cache of sequential buffers
@@ -161,7 +161,18 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
-        let bytes = self.inner.fetch(fetch_range).await?;
+        let bytes = match self.inner.fetch(fetch_range).await {
+            // The readahead reaches past the end of the source, but what was asked for doesn't:
+            // fetch up to the end.
+            Err(AsyncTiffError::EndOfFile(_, available))
+                if available >= needed && available < fetch_size =>
+            {
+                self.inner
+                    .fetch(start_len..start_len.saturating_add(available))
+                    .await?
+            }
+            result => result?,
+        };
 
         // Now append safely
         cache.append_buffer(bytes);
-- 
2.43.0


From 415d614f49604efa295e289977ccf6c731a841d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:15 +0000
Subject: [PATCH 26/26] fix: don't decode LERC blobs whose claimed size
 overflows

---
 src/decoder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5af46a9..ca78f55 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -131,6 +131,19 @@ fn decode_lerc<T: lerc::LercDataType + bytemuck::Pod>(
     buffer: &[u8],
     info: &lerc::BlobInfo,
 ) -> AsyncTiffResult<Vec<u8>> {
+    // The sizes are claims of the blob, and lerc::decode multiplies them unchecked.
+    [
+        info.width,
+        info.height,
+        info.depth,
+        info.bands,
+        info.masks.max(1),
+    ]
+    .iter()
+    .try_fold(size_of::<T>(), |n, x| n.checked_mul(*x as usize))
+    .filter(|n| *n <= isize::MAX as usize)
+    .ok_or_else(|| AsyncTiffError::General("LERC image too large".to_string()))?;
+
     let (data, _mask) = lerc::decode::<T>(
         buffer,
         info.width as usize,
-- 
2.43.0

