From dcd7007cbfb9689397a6286a0098f134d6046d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 01/10] fix: avoid arithmetic overflow on ASF object sizes

---
 src/readers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..dd5223c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -112,7 +112,7 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(40)))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
@@ -147,11 +147,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start((offset - 26).saturating_add(size)))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(24)))?;
                 }
             }
         }
-- 
2.43.0


From d80e34814b5ff612fed17c9f68ba04308488cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 02/10] fix: avoid arithmetic overflow on ZIP64 record offset

---
 src/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index dd5223c..5105610 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -909,7 +909,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From 4bcae976ed1e30ca9a9d46f33f9409c541fd4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 03/10] fix: account for the 64-bit size field of MP4 boxes

---
 src/readers.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 5105610..0baad9d 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -559,12 +559,15 @@ impl crate::FileFormat {
             let box_type = reader.read_bytes(4)?;
 
             // Handles the extended box size.
-            let size = if size == 1 {
-                reader.read_u64_be()?
+            let (size, header_size) = if size == 1 {
+                (reader.read_u64_be()?, 16)
             } else {
-                size as u64
+                (size as u64, 8)
             };
 
+            // Calculates the size of the box payload.
+            let payload_size = (size as i64).saturating_sub(header_size);
+
             // Checks the box type.
             match box_type.as_slice() {
                 b"moov" | b"trak" | b"mdia" => {}
@@ -582,11 +585,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Current(payload_size.saturating_sub(12)))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Current(payload_size))?;
                 }
             }
 
-- 
2.43.0


From 2d65dc7e16069c4f0320e05b954bb9e27877342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 04/10] fix: limit the size of the media type read from ZIP
 entries

---
 src/readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 0baad9d..b05045c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -860,6 +860,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of the media type that can be handled by the reader.
+        const MEDIA_TYPE_LIMIT: usize = 256;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -998,7 +1001,8 @@ impl crate::FileFormat {
                     ))?;
 
                     // Reads the data.
-                    let data = reader.read_string(compressed_size as usize)?;
+                    let data = reader
+                        .read_string(std::cmp::min(MEDIA_TYPE_LIMIT, compressed_size as usize))?;
 
                     // Checks the trimmed data.
                     return Ok(match data.trim() {
-- 
2.43.0


From f0c532f185d60e5bad8fe4d7a19e5886d64d4663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 05/10] fix: do not count the ID3v2 extended header twice

---
 src/readers.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index b05045c..758867f 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -483,19 +483,13 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
+            // Checks for footer flag.
             let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
             let footer_present = (flags & 0x10) != 0;
 
-            // Calculates next offset.
+            // Calculates next offset (the tag size already includes the extended header, if any).
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From c81abb4ad9c506ee0f805513daf95274761defc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 06/10] fix: limit the number of ID3v2 tags that are skipped

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 758867f..d0e0a89 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -465,9 +465,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 256;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From bb41c70e5fb96f556cd8d5a5b0aeeee95dca613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 07/10] fix: honor the size of the EBML StereoMode element

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index d0e0a89..5bb90ae 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -272,6 +272,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -391,12 +394,17 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
+                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0


From 7b20167e0399a75a56ca2ab058ec206004054803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 08/10] fix: accept text whose last character is split by the
 TXT read limit

---
 src/readers.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 5bb90ae..ceb666b 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -770,18 +770,35 @@ impl crate::FileFormat {
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
-        reader
-            .take(READ_LIMIT)
-            .lines()
-            .take(LINE_LIMIT)
-            .try_for_each(|line| {
-                line?
-                    .chars()
-                    .find(|char| char.is_control() && !char.is_whitespace())
-                    .map(|_| Err(Error::new(ErrorKind::InvalidData, "invalid characters")))
-                    .unwrap_or(Ok(()))
-            })
-            .map(|_| Self::PlainText)
+        let mut reader = reader.take(READ_LIMIT);
+        let mut line = Vec::new();
+        for _ in 0..LINE_LIMIT {
+            // Reads the line.
+            line.clear();
+            if reader.read_until(b'\n', &mut line)? == 0 {
+                break;
+            }
+
+            // Ignores the last character if it is truncated by the read limit.
+            let text = match std::str::from_utf8(&line) {
+                Err(err) if reader.limit() == 0 && err.error_len().is_none() => {
+                    std::str::from_utf8(&line[..err.valid_up_to()])
+                }
+                result => result,
+            }
+            .map_err(|err| Error::new(ErrorKind::InvalidData, err))?;
+
+            // Checks the characters.
+            if text
+                .chars()
+                .any(|char| char.is_control() && !char.is_whitespace())
+            {
+                return Err(Error::new(ErrorKind::InvalidData, "invalid characters"));
+            }
+        }
+
+        // Returns the default value.
+        Ok(Self::PlainText)
     }
 
     /// Determines file format from a XML reader.
-- 
2.43.0


From 78982949e334e1726a1e0377143a442c8724619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 09/10] fix: handle short and interrupted reads of the
 underlying stream

---
 src/lib.rs     |  3 ++-
 src/readers.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..d287848 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,6 +227,7 @@ use std::{
 };
 
 pub use formats::FileFormat;
+use readers::ReadData;
 
 impl FileFormat {
     /// Determines file format from bytes.
@@ -292,7 +293,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index ceb666b..70af74c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -639,7 +639,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_up_to(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -742,7 +742,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -809,7 +809,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1129,7 +1129,7 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
@@ -1138,6 +1138,22 @@ trait ReadData: Read {
         Ok(buf)
     }
 
+    /// Reads bytes until the buffer is full or the end of the stream is reached, and returns the
+    /// number of bytes read.
+    #[inline]
+    fn read_up_to(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(n) => nread += n,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(nread)
+    }
+
     /// Reads a GUID and converts it into a hyphenated `String`.
     #[inline]
     fn read_guid(&mut self) -> Result<String> {
-- 
2.43.0


From 287ffeee92509aeadca6c3e9284d95a9d463164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 10/10] fix: do not seek far past the end of the stream

The size of the last ASF object, EBML element or MP4 box is not bounded by
the length of the stream. Seeking that far succeeds on a cursor, but not
necessarily on a file: the format of the same contents was different.
---
 src/readers.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/readers.rs b/src/readers.rs
index 70af74c..849e5c4 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -79,6 +79,9 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
+        // Retrieves the stream length.
+        let len = reader.seek(SeekFrom::End(0))?;
+
         // Reads the number of header objects.
         reader.seek(SeekFrom::Start(24))?;
         let number_of_header_objects = reader.read_u32_le()?;
@@ -98,6 +101,9 @@ impl crate::FileFormat {
             // Reads the object size.
             let size = reader.read_u64_le()?;
 
+            // Limits the size, as seeking far past the end of the stream may fail.
+            let size = std::cmp::min(size, len);
+
             // Checks the object GUID.
             match guid.as_str() {
                 STREAM_PROPERTIES_OBJECT_GUID => {
@@ -351,6 +357,9 @@ impl crate::FileFormat {
                 size = (size << 8) | (byte as u64);
             }
 
+            // Limits the size, as seeking far past the end of the stream may fail.
+            let size = std::cmp::min(size, len);
+
             // Checks the element ID.
             match id {
                 EBML_ELEMENT_ID
@@ -570,6 +579,9 @@ impl crate::FileFormat {
                 (size as u64, 8)
             };
 
+            // Limits the size, as seeking far past the end of the stream may fail.
+            let size = std::cmp::min(size, len);
+
             // Calculates the size of the box payload.
             let payload_size = (size as i64).saturating_sub(header_size);
 
-- 
2.43.0

