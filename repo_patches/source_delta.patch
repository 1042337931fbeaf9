From ab05c5a4d276c63a38c33906d8a69c9a75970b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 01/22] fix: read complete fields from readers that return
 short reads

Read::read may return fewer bytes than asked for. The signature, the fixed
size header fields and the block data were read with a single read call, so
a reader that delivers its data in chunks produced wrong fields (and a wrong
logged header). Use read_exact semantics and log only the bytes read.
---
 src/format/kdb2_reader.rs | 16 ++++++++++------
 src/io/log_reader.rs      |  6 +++---
 src/types/database.rs     |  4 ++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..108dbe4 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -35,7 +35,7 @@ use crate::types::TransformedKey;
 use crate::types::Version;
 use crate::types::XmlData;
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 
 /// Attempts to read the database content from the reader.
 pub fn read<R>(reader: &mut R, composite_key: &CompositeKey) -> Result<(MetaData, XmlData)>
@@ -346,20 +346,24 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
-    let mut data = vec![0; *size];
-    reader.read(&mut data)?;
-    Ok(data)
+    let mut data = Vec::new();
+    let count = reader.take(*size as u64).read_to_end(&mut data)?;
+    if count == *size {
+        Ok(data)
+    } else {
+        Err(Error::Io(io::Error::from(io::ErrorKind::UnexpectedEof)))
+    }
 }
 
 fn get_header<T>(header: Option<T>, header_id: u8) -> Result<T> {
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..be4c04a 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let count = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend_from_slice(&buf[..count]);
         }
-        result
+        Ok(count)
     }
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From cae3c9b70412932eaf8abd99ab935eec89748bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 02/22] fix: write complete data to writers that accept short
 writes

Write::write may accept fewer bytes than it was given. The database and key
file writers ignored the returned count and lost the rest of the data. Use
write_all and log only the bytes that were written.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..3e15006 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let count = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend_from_slice(&buf[..count]);
         }
-        result
+        Ok(count)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 89aec8c1cce68fb729dda3e9fc8ac960ae5ce35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 03/22] fix: report an invalid key when the decrypted payload
 is too short

A payload that decrypts to fewer than 32 bytes made open panic on the slice
of the stream start bytes.
---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 108dbe4..64c97d6 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if !payload.starts_with(&stream_start_bytes.0) {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From 05a8620ede5ca91f8eb3a1732bb44400b7432c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 04/22] fix: decompress the payload as one stream instead of
 block by block

In a KDBX 3.1 file the gzip stream is cut into hashed blocks (KeePass uses
blocks of 1 MiB), so a block other than the first is not a gzip stream of its
own and larger databases could not be opened. Join the verified blocks before
decompressing; a series of gzip members is still accepted.
---
 src/compression/gzip.rs   | 4 ++--
 src/format/kdb2_reader.rs | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/compression/gzip.rs b/src/compression/gzip.rs
index d3b74be..9fae941 100644
--- a/src/compression/gzip.rs
+++ b/src/compression/gzip.rs
@@ -7,7 +7,7 @@
 // except according to those terms.
 
 use crate::types::Result;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use std::io::{Read, Write};
@@ -15,7 +15,7 @@ use std::io::{Read, Write};
 /// Decode (decompress) the input using GZip.
 pub fn decode(input: &[u8]) -> Result<Vec<u8>> {
     let mut output = Vec::new();
-    let mut decoder = GzDecoder::new(input);
+    let mut decoder = MultiGzDecoder::new(input);
     decoder.read_to_end(&mut output)?;
     Ok(output)
 }
diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 64c97d6..ee29781 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut raw_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -337,11 +337,10 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.append(&mut raw_data);
     }
 
-    Ok(xml)
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From 7fa6a6ea59b6e0b784f77e59e04976ce4d32cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 05/22] fix: reject colors with non-ASCII characters instead of
 panicking

Color::from_hex_string counted characters but sliced bytes, so a seven
character string with a multi-byte character panicked, also while opening a
database. It also accepted a plus sign as a digit.
---
 src/types/color.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..160d84b 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -138,24 +138,33 @@ impl error::Error for ColorError {
     }
 }
 
+fn from_hex_digits(hex_str: &str, start: usize) -> Option<u8> {
+    let digits: String = hex_str.chars().skip(start).take(2).collect();
+    if digits.chars().all(|c| c.is_ascii_hexdigit()) {
+        u8::from_str_radix(&digits, 16).ok()
+    } else {
+        None
+    }
+}
+
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+    match from_hex_digits(hex_str, 5) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
+    match from_hex_digits(hex_str, 3) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
+    match from_hex_digits(hex_str, 1) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidRedValue),
     }
 }
 
-- 
2.43.0


From 9bfda2eac5999fc90142176e90cb7447c083acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 06/22] fix: accept empty keys and values that the writer
 produces

An empty custom data key or value, custom icon, string key or binary key made
a saved database impossible to open, and an auto-type association with an
empty window or keystroke sequence was dropped. An element that is present
but empty is an empty value, not a missing one.
---
 src/format/kdb2_xml_reader.rs | 14 +++++++-------
 src/format/xml.rs             | 18 ++++++------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..c9dfa48 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -662,7 +662,7 @@ fn read_binary<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_binary_key_opt(reader)?;
+                    key = Some(xml::read_binary_key(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
@@ -735,7 +735,7 @@ fn read_string<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_key_opt(reader)?;
+                    key = Some(xml::read_string_key(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..fd84a47 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -39,12 +39,9 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     }
 }
 
-/// Attempts to read an optional binary key.
-pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
-    }
+/// Attempts to read a binary key.
+pub fn read_binary_key<R: Read>(reader: &mut EventReader<R>) -> Result<BinaryKey> {
+    Ok(BinaryKey(read_string(reader)?))
 }
 
 /// Attempts to read optional binary data.
@@ -214,12 +211,9 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
     }
 }
 
-/// Attempts to read an optional string key
-pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
-    }
+/// Attempts to read a string key
+pub fn read_string_key<R: Read>(reader: &mut EventReader<R>) -> Result<StringKey> {
+    Ok(StringKey::from_string(&read_string(reader)?))
 }
 
 /// Attempts to read an optional string.
-- 
2.43.0


From 376605b1c3a95fae00bb3fc1b1016ece5ad957ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 07/22] fix: save the custom icon of a group

The reader reads it, the writer left it out, so it was lost on every save.
---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From 4e28908bd26e69071a6ca35bd966985fcd9cc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 08/22] fix: refuse to save a comment that does not fit its
 header field

The size of the comment was truncated to 16 bits, so saving succeeded but the
file could not be opened again.
---
 src/format/kdb2_writer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..cd4fcca 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -18,6 +18,7 @@ use crate::io::Log;
 use crate::types::Comment;
 use crate::types::Compression;
 use crate::types::Database;
+use crate::types::Error;
 use crate::types::HeaderHash;
 use crate::types::MasterCipher;
 use crate::types::MasterIV;
@@ -33,7 +34,7 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::io::{self, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,6 +107,12 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            if comment.0.len() > u16::max_value() as usize {
+                return Err(Error::Io(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "comment too long",
+                )));
+            }
             write_header_id(writer, kdb2::COMMENT_HID)?;
             write_header_size(writer, comment.0.len() as u16)?;
             write_bytes(writer, &comment.0)?;
-- 
2.43.0


From 8339264b3cc37767ae1a7ba34f1e0b5b2d454e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 09/22] fix: refuse to save characters that XML cannot
 represent

A plain string with a control character (or U+FFFE, U+FFFF) was written as is:
saving succeeded, but the file could not be opened again.
---
 src/format/kdb2_xml_writer.rs |  2 ++
 src/format/xml.rs             | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..4202e02 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -104,6 +104,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_chars(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +120,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_chars(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
diff --git a/src/format/xml.rs b/src/format/xml.rs
index fd84a47..374d8e2 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -31,6 +31,20 @@ use xml::common::Position;
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
+/// Checks that the string only contains characters that are allowed in an XML document.
+pub fn check_chars(value: &str) -> Result<()> {
+    for c in value.chars() {
+        match c {
+            '\t' | '\n' | '\r' | ' '..='\u{fffd}' | '\u{10000}'..='\u{10ffff}' => {}
+            _ => {
+                let msg = format!("Character not allowed in XML: {:?}", c);
+                return Err(Error::XmlError(msg));
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
@@ -387,6 +401,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_chars(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From a1a25fcdfbbeb9c16ecd0b8b73aba8a126e19e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 10/22] fix: refuse to save protected strings that are not
 UTF-8

StringValue::Protected can hold any bytes, but a reader only accepts UTF-8:
saving succeeded, but the file could not be opened again.
---
 src/format/kdb2_xml_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 4202e02..918cfd5 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -30,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use rust_xml::writer::{EmitterConfig, EventWriter, XmlEvent};
 use std::io::Write;
+use std::str;
 
 /// Attempts to write the database's XML data to the writer.
 pub fn write<W: Write>(
@@ -344,6 +346,9 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            if let Err(err) = str::from_utf8(sec.unsecure()) {
+                return Err(Error::XmlError(format!("UTF8 {}", err)));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-- 
2.43.0


From 55e132f5b7f198bd3a501e18ae6a4c627f1541f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 11/22] fix: keep text values that are white space or CDATA

A value that consists of white space only, or that is written as a CDATA
section, was read as an empty value. White space in a place where a number,
boolean, color, date or binary value is expected is still an absent value.
---
 src/format/kdb2_xml_reader.rs |  7 +++++--
 src/format/xml.rs             | 18 +++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index c9dfa48..1dcecea 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -31,13 +31,16 @@ use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use std::io::Read;
 
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new()
+        .whitespace_to_characters(true)
+        .cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 374d8e2..c87b094 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -60,7 +60,7 @@ pub fn read_binary_key<R: Read>(reader: &mut EventReader<R>) -> Result<BinaryKey
 
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match general_purpose::STANDARD.decode(&string) {
             Ok(bin) => Ok(Some(bin)),
             Err(err) => read_err(reader, format!("Base64 {}", err)),
@@ -110,7 +110,7 @@ pub fn read_bool<R: Read>(reader: &mut EventReader<R>) -> Result<bool> {
 
 /// Attempts to read an optional boolean.
 pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.to_lowercase().as_str() {
             "false" => Ok(Some(false)),
             "null" => Ok(None),
@@ -123,7 +123,7 @@ pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool
 
 /// Attempts to read an optional color.
 pub fn read_color_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Color>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match Color::from_hex_string(&string) {
             Ok(color) => Ok(Some(color)),
             Err(err) => read_err(reader, format!("Color {}", err)),
@@ -144,7 +144,7 @@ pub fn read_custom_icon_uuid_opt<R: Read>(
 
 /// Attempts to read a date and time.
 pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Utc>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.parse::<DateTime<Utc>>() {
             Ok(datetime) => Ok(datetime),
             Err(err) => read_err(reader, format!("DateTime {}", err)),
@@ -186,7 +186,7 @@ pub fn read_i32<R: Read>(reader: &mut EventReader<R>) -> Result<i32> {
 
 /// Attempts to read an optional i32.
 pub fn read_i32_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<i32>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.parse::<i32>() {
             Ok(num) => Ok(Some(num)),
             Err(err) => read_err(reader, format!("Number {}", err)),
@@ -275,6 +275,14 @@ pub fn read_string_value_opt<R: Read>(
     }
 }
 
+/// Attempts to read an optional string of which the value isn't just whitespace.
+pub fn read_token_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
+    match read_string_opt(reader)? {
+        Some(ref string) if string.trim().is_empty() => Ok(None),
+        opt => Ok(opt),
+    }
+}
+
 /// Attempts to read a UUID.
 pub fn read_uuid<R: Read>(reader: &mut EventReader<R>) -> Result<Uuid> {
     match read_uuid_opt(reader)? {
-- 
2.43.0


From 86eae7be6cb88764cdaa7d18c95e0f407a069f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 12/22] fix: decrypt protected binaries in the meta section

A binary with Protected="True" was returned encrypted, and as the stream
cipher did not advance every later protected value was decrypted wrongly.
---
 src/format/kdb2_xml_reader.rs | 20 +++++++++++++++-----
 src/format/xml.rs             |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 1dcecea..f9e35e0 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -73,7 +73,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -94,13 +94,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -221,7 +225,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -232,7 +239,10 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
                     let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        salsa20::decrypt(cipher, &xml::read_binary(reader)?)
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
diff --git a/src/format/xml.rs b/src/format/xml.rs
index c87b094..f523997 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -444,7 +444,8 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
-fn get_protected_attr_value<R: Read>(
+/// Attempts to get the value of the Protected attribute.
+pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<bool> {
-- 
2.43.0


From a00ab91daab2fef364974a3ea2762300044dd33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 13/22] fix: skip unknown XML elements as a whole

The content of an element the reader does not know was read as if it were
content of the enclosing element: values inside it could replace real values,
an end tag inside it could end the enclosing element early, and a protected
value inside it was not passed through the stream cipher, which garbled every
protected value after it.
---
 src/format/kdb2_xml_reader.rs | 187 +++++++++++++++++++++++++---------
 src/format/xml.rs             |  32 ++++++
 2 files changed, 171 insertions(+), 48 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index f9e35e0..271531b 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -71,14 +71,18 @@ fn read_kee_pass_file<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
                     read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -102,7 +106,9 @@ fn read_meta<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
                     data.binaries = read_binaries(reader, cipher)?;
                 }
@@ -110,10 +116,10 @@ fn read_meta<R: Read>(
                     data.color = xml::read_color_opt(reader)?;
                 }
                 kdb2::CUSTOM_DATA_TAG => {
-                    data.custom_data = read_custom_data(reader)?;
+                    data.custom_data = read_custom_data(reader, cipher)?;
                 }
                 kdb2::CUSTOM_ICONS_TAG => {
-                    data.custom_icons = read_custom_icons(reader)?;
+                    data.custom_icons = read_custom_icons(reader, cipher)?;
                 }
                 kdb2::DATABASE_DESCRIPTION_TAG => {
                     data.description = xml::read_string(reader)?;
@@ -170,7 +176,7 @@ fn read_meta<R: Read>(
                     data.master_key_changed = xml::read_datetime(reader)?;
                 }
                 kdb2::MEMORY_PROTECTION_TAG => {
-                    read_memory_protection(reader, data)?;
+                    read_memory_protection(reader, data, cipher)?;
                 }
                 kdb2::RECYCLE_BIN_CHANGED_TAG => {
                     data.recycle_bin_changed = xml::read_datetime(reader)?;
@@ -181,7 +187,9 @@ fn read_meta<R: Read>(
                 kdb2::RECYCLE_BIN_UUID_TAG => {
                     data.recycle_bin_uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -205,11 +213,15 @@ fn read_root<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::GROUP_TAG => {
                     data.root_group = Some(read_group(reader, cipher, GroupUuid::nil())?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -249,7 +261,9 @@ fn read_binaries<R: Read>(
                     };
                     map.insert(id, bytes);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -265,17 +279,24 @@ fn read_binaries<R: Read>(
     Ok(map)
 }
 
-fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMap> {
+fn read_custom_data<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<CustomDataMap> {
     let mut map = CustomDataMap::new();
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ITEM_TAG => {
-                    let (key, value) = read_custom_data_item(reader)?;
+                    let (key, value) = read_custom_data_item(reader, cipher)?;
                     map.insert(key, value);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -291,20 +312,27 @@ fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMa
     Ok(map)
 }
 
-fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String, String)> {
+fn read_custom_data_item<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<(String, String)> {
     let mut key: Option<String> = None;
     let mut value: Option<String> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
                     key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = Some(xml::read_string(reader)?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -330,17 +358,24 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
     Ok((key, value))
 }
 
-fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIconsMap> {
+fn read_custom_icons<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<CustomIconsMap> {
     let mut map = CustomIconsMap::new();
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ICON_TAG => {
-                    let (uuid, data) = read_custom_icon(reader)?;
+                    let (uuid, data) = read_custom_icon(reader, cipher)?;
                     map.insert(uuid, data);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -356,20 +391,27 @@ fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIcons
     Ok(map)
 }
 
-fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconUuid, Vec<u8>)> {
+fn read_custom_icon<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<(CustomIconUuid, Vec<u8>)> {
     let mut uuid: Option<CustomIconUuid> = None;
     let mut data: Option<Vec<u8>> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
                     data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -395,11 +437,17 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
     Ok((uuid, data))
 }
 
-fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_memory_protection<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::PROTECT_NOTES_TAG => {
                     data.protect_notes = xml::read_bool(reader)?;
                 }
@@ -415,7 +463,9 @@ fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlDa
                 kdb2::PROTECT_USERNAME_TAG => {
                     data.protect_username = xml::read_bool(reader)?;
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -441,7 +491,9 @@ fn read_group<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::CUSTOM_ICON_UUID_TAG => {
                     node.custom_icon_uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
@@ -482,12 +534,14 @@ fn read_group<R: Read>(
                     node.notes = xml::read_string(reader)?;
                 }
                 kdb2::TIMES_TAG => {
-                    read_times(reader, &mut node)?;
+                    read_times(reader, &mut node, cipher)?;
                 }
                 kdb2::UUID_TAG => {
                     node.uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -522,11 +576,13 @@ fn read_entry<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 node.parent = parent;
                 match name.local_name.as_str() {
                     kdb2::AUTO_TYPE_TAG => {
-                        read_auto_type(reader, &mut node)?;
+                        read_auto_type(reader, &mut node, cipher)?;
                     }
                     kdb2::BACKGROUND_COLOR_TAG => {
                         node.background_color = xml::read_color_opt(reader)?;
@@ -545,6 +601,8 @@ fn read_entry<R: Read>(
                         if state == EntryState::Active {
                             node.history
                                 .append(&mut read_history(reader, cipher, parent.clone())?);
+                        } else {
+                            xml::skip_element(reader, cipher, &attributes)?;
                         }
                     }
                     kdb2::ICON_ID_TAG => {
@@ -561,12 +619,14 @@ fn read_entry<R: Read>(
                         node.tags = xml::read_string(reader)?;
                     }
                     kdb2::TIMES_TAG => {
-                        read_times(reader, &mut node)?;
+                        read_times(reader, &mut node, cipher)?;
                     }
                     kdb2::UUID_TAG => {
                         node.uuid = EntryUuid(xml::read_uuid(reader)?);
                     }
-                    _ => {}
+                    _ => {
+                        xml::skip_element(reader, cipher, &attributes)?;
+                    }
                 }
             }
 
@@ -582,16 +642,22 @@ fn read_entry<R: Read>(
     Ok(node)
 }
 
-fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Result<()> {
+fn read_auto_type<R: Read>(
+    reader: &mut EventReader<R>,
+    node: &mut Entry,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } =>
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } =>
             {
                 #[allow(unused_must_use)]
                 match name.local_name.as_str() {
                     kdb2::ASSOCIATION_TAG => {
-                        read_association(reader)
+                        read_association(reader, cipher)
                             .map(|x| node.associations.push(x))
                             .map_err(|err| eprintln!("{}", err));
                     }
@@ -604,7 +670,9 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ENABLED_TAG => {
                         node.auto_type_enabled = xml::read_bool(reader)?;
                     }
-                    _ => {}
+                    _ => {
+                        xml::skip_element(reader, cipher, &attributes)?;
+                    }
                 }
             }
 
@@ -620,20 +688,27 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
     Ok(())
 }
 
-fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association> {
+fn read_association<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<Association> {
     let mut keystroke: Option<String> = None;
     let mut window: Option<String> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
                     keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
                     window = Some(xml::read_string(reader)?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -680,7 +755,9 @@ fn read_binary<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -715,11 +792,15 @@ fn read_history<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ENTRY_TAG => {
                     list.push(read_entry(reader, cipher, EntryState::History, parent)?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -753,7 +834,9 @@ fn read_string<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -779,7 +862,11 @@ fn read_string<R: Read>(
     Ok((key, value))
 }
 
-fn read_times<N, R>(reader: &mut EventReader<R>, node: &mut N) -> Result<()>
+fn read_times<N, R>(
+    reader: &mut EventReader<R>,
+    node: &mut N,
+    cipher: &mut Salsa20,
+) -> Result<()>
 where
     N: Times,
     R: Read,
@@ -787,7 +874,9 @@ where
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::CREATION_TIME_TAG => {
                     node.set_creation_time(xml::read_datetime(reader)?);
                 }
@@ -809,7 +898,9 @@ where
                 kdb2::USAGE_COUNT_TAG => {
                     node.set_usage_count(xml::read_i32(reader)?);
                 }
-                _ => {}
+                _ => {
+                    xml::skip_element(reader, cipher, &attributes)?;
+                }
             },
 
             XmlEvent::EndElement { name, .. } => {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index f523997..918ff8f 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -312,6 +312,38 @@ pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<Stri
     None
 }
 
+/// Attempts to skip the rest of an element and everything in it. Protected values that are skipped
+/// still have to pass through the cipher to be able to decrypt the values that follow.
+pub fn skip_element<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<()> {
+    let mut protected = vec![get_protected_attr_value(reader, attrs)?];
+    while let Some(&is_protected) = protected.last() {
+        match reader.next()? {
+            reader::XmlEvent::StartElement { attributes, .. } => {
+                protected.push(get_protected_attr_value(reader, &attributes)?);
+            }
+            reader::XmlEvent::EndElement { .. } => {
+                protected.pop();
+            }
+            reader::XmlEvent::Characters(val) => {
+                if is_protected && !val.trim().is_empty() {
+                    match general_purpose::STANDARD.decode(&val) {
+                        Ok(bytes) => {
+                            salsa20::decrypt(cipher, &bytes);
+                        }
+                        Err(err) => return read_err(reader, format!("Base64 {}", err)),
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 /// Attempts to write binary data.
 pub fn write_binary<W: Write>(writer: &mut EventWriter<W>, data: &[u8]) -> Result<()> {
     write_string(writer, &general_purpose::STANDARD.encode(&data))
-- 
2.43.0


From f03afee987323af2c373b9f282d9ee56a11bfade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 14/22] fix: refuse to save a string that would take over a
 standard string

---
 src/format/kdb2_xml_writer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 918cfd5..f6bf093 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -338,8 +338,14 @@ fn write_string_section<W: Write>(
     key: &StringKey,
     value: &StringValue,
 ) -> Result<()> {
+    let name = key.to_string();
+    if StringKey::from_string(&name) != *key {
+        let msg = format!("Name of a standard string used for another string: {}", name);
+        return Err(Error::XmlError(msg));
+    }
+
     xml::write_start_tag(writer, kdb2::STRING_TAG)?;
-    xml::write_string_tag(writer, kdb2::KEY_TAG, &key.to_string())?;
+    xml::write_string_tag(writer, kdb2::KEY_TAG, &name)?;
 
     match *value {
         StringValue::Plain(ref string) => {
-- 
2.43.0


From bc5964e3cdec01c590ced969eb651d01ddf4b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 15/22] fix: make searches ignore the case of every letter

---
 src/types/database.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/types/database.rs b/src/types/database.rs
index 1f2756d..6171a3b 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -229,7 +229,7 @@ impl Database {
     /// ```
     pub fn find_entries<'a, S: Into<String>>(&'a self, text: S) -> Vec<&'a Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter() {
             for entry in group.entries.iter() {
                 if entry_contains_string(entry, text) {
@@ -264,7 +264,7 @@ impl Database {
     /// ```
     pub fn find_entries_mut<'a, S: Into<String>>(&'a mut self, text: S) -> Vec<&'a mut Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter_mut() {
             for entry in group.entries.iter_mut() {
                 if entry_contains_string(entry, text) {
@@ -294,10 +294,10 @@ impl Database {
     /// assert_eq!(result.len(), 0);
     /// ```
     pub fn find_groups<'a, S: Into<String>>(&'a self, name: S) -> Vec<&'a Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a Group>>()
     }
 
@@ -317,10 +317,10 @@ impl Database {
     /// assert_eq!(result.len(), 1);
     /// ```
     pub fn find_groups_mut<'a, S: Into<String>>(&'a mut self, name: S) -> Vec<&'a mut Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter_mut()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a mut Group>>()
     }
 
@@ -545,7 +545,7 @@ fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     for value in entry.strings.values() {
         match *value {
             StringValue::Plain(ref string) => {
-                if string.to_lowercase().contains(name) {
+                if fold_case(string).contains(name) {
                     return true;
                 }
             }
@@ -555,6 +555,17 @@ fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     false
 }
 
+// Folds the case of every character on its own, because the result for a character may not depend
+// on the characters around it (as it does for the final sigma in to_lowercase of str). The detour
+// via upper case unites the letters that have more than one lower case form.
+fn fold_case(text: &str) -> String {
+    text.chars()
+        .flat_map(char::to_lowercase)
+        .flat_map(char::to_uppercase)
+        .flat_map(char::to_lowercase)
+        .collect()
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 3e67f7241e65e276a54d94c0e2fd3a929eec837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 16/22] fix: limit the nesting of groups instead of overflowing
 the stack

---
 src/format/kdb2.rs            | 5 +++++
 src/format/kdb2_xml_reader.rs | 8 ++++++--
 src/format/kdb2_xml_writer.rs | 9 +++++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2.rs b/src/format/kdb2.rs
index dbfd03c..47365a0 100644
--- a/src/format/kdb2.rs
+++ b/src/format/kdb2.rs
@@ -77,6 +77,11 @@ pub const TRANSFORM_SEED_HID: u8 = 5;
 pub const TRANSFORM_SEED_SIZE: u16 = 32;
 
 // Tags
+
+/// The maximum depth of the group tree. Every level is a recursive call, so the depth has to be
+/// limited to keep deeply nested files from overflowing the stack.
+pub const MAX_GROUP_DEPTH: usize = 200;
+
 pub const ASSOCIATION_TAG: &'static str = "Association";
 pub const AUTO_TYPE_TAG: &'static str = "AutoType";
 pub const BACKGROUND_COLOR_TAG: &'static str = "BackgroundColor";
diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 271531b..28e4c3c 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -217,7 +217,7 @@ fn read_root<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::GROUP_TAG => {
-                    data.root_group = Some(read_group(reader, cipher, GroupUuid::nil())?);
+                    data.root_group = Some(read_group(reader, cipher, GroupUuid::nil(), 1)?);
                 }
                 _ => {
                     xml::skip_element(reader, cipher, &attributes)?;
@@ -485,7 +485,11 @@ fn read_group<R: Read>(
     reader: &mut EventReader<R>,
     cipher: &mut Salsa20,
     parent: GroupUuid,
+    depth: usize,
 ) -> Result<Group> {
+    if depth > kdb2::MAX_GROUP_DEPTH {
+        return xml::read_err(reader, "Groups are nested too deep");
+    }
     let mut node = Group::default();
     node.parent = parent;
     loop {
@@ -516,7 +520,7 @@ fn read_group<R: Read>(
                 }
                 kdb2::GROUP_TAG => {
                     node.groups
-                        .push(read_group(reader, cipher, GroupUuid::nil())?);
+                        .push(read_group(reader, cipher, GroupUuid::nil(), depth + 1)?);
                 }
                 kdb2::ICON_ID_TAG => {
                     node.icon = xml::read_icon(reader)?;
diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index f6bf093..386dbd2 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -212,7 +212,12 @@ fn write_group_section<W: Write>(
     writer: &mut EventWriter<W>,
     cipher: &mut Salsa20,
     group: &Group,
+    depth: usize,
 ) -> Result<()> {
+    if depth > kdb2::MAX_GROUP_DEPTH {
+        let msg = String::from("Groups are nested too deep");
+        return Err(Error::XmlError(msg));
+    }
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
     xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
@@ -235,7 +240,7 @@ fn write_group_section<W: Write>(
     }
 
     for subgroup in &group.groups {
-        write_group_section(writer, cipher, subgroup)?;
+        write_group_section(writer, cipher, subgroup, depth + 1)?;
     }
 
     xml::write_end_tag(writer)
@@ -328,7 +333,7 @@ fn write_root_section<W: Write>(
     cipher: &mut Salsa20,
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::ROOT_TAG)?;
-    write_group_section(writer, cipher, &db.root_group)?;
+    write_group_section(writer, cipher, &db.root_group, 1)?;
     xml::write_end_tag(writer)
 }
 
-- 
2.43.0


From 11a2d089cbec1ee69c6b4c62854f5e800471ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 17/22] fix: read CDATA in key files

---
 src/format/kf_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..469f369 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -11,7 +11,7 @@
 use crate::format::{kf, xml};
 use crate::types::{Error, KeyFile, KeyFileType, Result};
 use hex::FromHex;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use secstr::SecStr;
 use std::io::{Cursor, Read};
 
@@ -45,7 +45,10 @@ fn read_hex(data: Vec<u8>) -> Result<KeyFile> {
 
 fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new()
+        .whitespace_to_characters(true)
+        .cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     loop {
         let event = reader.next()?;
         match event {
-- 
2.43.0


From 72f6c003c4849994dd90c13b9845819075b665ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 18/22] fix: write carriage returns so that every reader keeps
 them

---
 src/format/xml.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 918ff8f..1c376a2 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -442,7 +442,14 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
     check_chars(value)?;
-    writer.write(value.as_str())?;
+    // A literal carriage return is read as a line feed, so it has to be written as a reference. The
+    // writer doesn't have an event for references.
+    for (index, part) in value.split('\r').enumerate() {
+        if index > 0 {
+            writer.inner_mut().write_all(b"&#xD;")?;
+        }
+        writer.write(part)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 5facec6414869447dfa0d223307512702cea39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 19/22] fix: check the padding of the payload before removing
 it

A last block whose every byte claims more padding than a block holds made the
padding processor panic, and a padding length of zero was accepted.
---
 src/crypto/aes256.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..63bea2f 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,18 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{NoPadding, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
+use crate::rust_crypto::symmetriccipher::SymmetricCipherError;
 use crate::types::{MasterIV, MasterKey, Result};
 
+const BLOCK_SIZE: usize = 16;
+
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, NoPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
@@ -36,9 +39,31 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
+    strip_padding(&mut output)?;
     Ok(output)
 }
 
+/// Remove the PKCS padding, which has to be checked before it is removed: the
+/// padding processor of the crypto library panics when the padding claims to
+/// be longer than a block.
+fn strip_padding(output: &mut Vec<u8>) -> Result<()> {
+    let padding = match output.last() {
+        Some(&padding) => padding,
+        None => return Err(SymmetricCipherError::InvalidLength.into()),
+    };
+    let size = padding as usize;
+    if size == 0 || size > BLOCK_SIZE || size > output.len() {
+        return Err(SymmetricCipherError::InvalidPadding.into());
+    }
+
+    let length = output.len() - size;
+    if output[length..].iter().any(|&byte| byte != padding) {
+        return Err(SymmetricCipherError::InvalidPadding.into());
+    }
+    output.truncate(length);
+    Ok(())
+}
+
 /// Encrypt the input using the key and initialization vector.
 pub fn encrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
     let mut cipher = aes::cbc_encryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
-- 
2.43.0


From f0a39f8c0426ee22bb1b5bcce0fa8ca5666b2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 20/22] fix: decompress compressed binaries of entries

An entry's binary that is stored in the entry itself with Compressed="True"
was returned in compressed form.
---
 src/format/kdb2_xml_reader.rs | 15 +--------------
 src/format/xml.rs             | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 28e4c3c..680b8d8 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -250,7 +250,7 @@ fn read_binaries<R: Read>(
             } => match name.local_name.as_str() {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
-                    let compressed = get_compressed_attr_value(reader, &attributes)?;
+                    let compressed = xml::get_compressed_attr_value(reader, &attributes)?;
                     let protected = xml::get_protected_attr_value(reader, &attributes)?;
                     let bytes = if protected {
                         salsa20::decrypt(cipher, &xml::read_binary(reader)?)
@@ -920,19 +920,6 @@ where
     Ok(())
 }
 
-fn get_compressed_attr_value<R: Read>(
-    reader: &mut EventReader<R>,
-    attrs: &Vec<OwnedAttribute>,
-) -> Result<bool> {
-    match xml::search_attr_value(attrs, "compressed") {
-        Some(val) => match val.to_lowercase().parse::<bool>() {
-            Ok(val) => Ok(val),
-            Err(_) => xml::read_err(reader, "Attribute Compressed invalid value"),
-        },
-        None => Ok(false),
-    }
-}
-
 fn get_id_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 1c376a2..32829e6 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -76,9 +76,11 @@ pub fn read_binary_value_opt<R: Read>(
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<Option<BinaryValue>> {
     let ref_value = search_attr_value(attrs, "ref");
+    let compressed = get_compressed_attr_value(reader, attrs)?;
     let protected = get_protected_attr_value(reader, attrs)?;
     match ref_value {
         Some(string) => Ok(Some(BinaryValue::Ref(BinaryId(string)))),
+        None if compressed && !protected => Ok(Some(BinaryValue::Plain(read_gzip(reader)?))),
         None => match read_binary_opt(reader)? {
             Some(bytes) => {
                 if protected {
@@ -483,6 +485,20 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
+/// Attempts to get the value of the Compressed attribute.
+pub fn get_compressed_attr_value<R: Read>(
+    reader: &mut EventReader<R>,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<bool> {
+    match search_attr_value(attrs, "compressed") {
+        Some(val) => match val.to_lowercase().parse::<bool>() {
+            Ok(val) => Ok(val),
+            Err(_) => read_err(reader, "Attribute Compressed invalid value"),
+        },
+        None => Ok(false),
+    }
+}
+
 /// Attempts to get the value of the Protected attribute.
 pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
-- 
2.43.0


From 8053d6eeb869de6fd99f3fd6215fdd41e0c45af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 21/22] fix: decrypt an empty payload to an empty payload again

The padding check made the inverse of encrypting nothing an error.
---
 src/crypto/aes256.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 63bea2f..c750e88 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -39,7 +39,9 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
-    strip_padding(&mut output)?;
+    if !input.is_empty() {
+        strip_padding(&mut output)?;
+    }
     Ok(output)
 }
 
-- 
2.43.0


From 66fb87a9d50f249a5a564c5719ce8058bfcb55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 22/22] fix: reject key files with more than one root element

---
 src/format/kf_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 469f369..96d924f 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -47,7 +47,8 @@ fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
     let config = ParserConfig::new()
         .whitespace_to_characters(true)
-        .cdata_to_characters(true);
+        .cdata_to_characters(true)
+        .allow_multiple_root_elements(false);
     let mut reader = EventReader::new_with_config(reader, config);
     loop {
         let event = reader.next()?;
-- 
2.43.0

