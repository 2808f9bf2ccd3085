From 9309070e31e54c74490af08a2746a7ab2032a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:36 +0000
Subject: [PATCH 01/60] fix: write the entry timestamp of version 1 paks

Header::read and calculate_header_len expect 8 timestamp bytes in a version 1
header, Header::write left them out, so no version 1 pak could be read back.
---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..edde142 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        if pak_version <= PakVersion::Initial {
+            // timestamp
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From 18f3de418e184775f4bc3de8e16fd778a07dbf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:36 +0000
Subject: [PATCH 02/60] fix: make compressed version 3 and 4 paks readable

Block offsets are absolute before RelativeChunkOffsets. The writer stored
relative ones, and the reader subtracted the entry offset from them (overflow)
and computed the block size from one converted and one unconverted offset.
---
 unreal_pak/src/entry.rs  |  8 ++++++--
 unreal_pak/src/header.rs | 22 +++++++++++++---------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..5599013 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -101,7 +101,11 @@ where
 
             let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
-            let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
+            let mut data_start = Header::calculate_header_len(pak_version, Some(block_count as u32));
+            if pak_version < PakVersion::RelativeChunkOffsets {
+                // older versions store block offsets relative to the start of the file
+                data_start += offset;
+            }
 
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
@@ -110,7 +114,7 @@ where
                 compressed_data.extend_from_slice(&block_compressed_data);
 
                 compression_blocks_inner.push(Block {
-                    start: begin + header_len,
+                    start: begin + data_start,
                     size: block_compressed_data.len() as u64,
                 });
             }
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index edde142..7a9a4b0 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -78,17 +78,21 @@ impl Header {
                 let mut compression_blocks_inner = Vec::with_capacity(block_count);
 
                 for _ in 0..block_count {
-                    // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
+                    let start_offset = reader.read_u64::<LE>()?;
                     let end_offset = reader.read_u64::<LE>()?;
+                    // convert old absolute to relative offsets
+                    let relative_to = if pak_version < PakVersion::RelativeChunkOffsets {
+                        offset
+                    } else {
+                        0
+                    };
                     compression_blocks_inner.push(Block {
-                        start: start_offset,
-                        size: end_offset - start_offset,
+                        start: start_offset
+                            .checked_sub(relative_to)
+                            .ok_or_else(PakError::entry_invalid)?,
+                        size: end_offset
+                            .checked_sub(start_offset)
+                            .ok_or_else(PakError::entry_invalid)?,
                     });
                 }
                 compression_blocks = Some(compression_blocks_inner);
-- 
2.43.0


From ecbf606e761bc4a5fb68e440a69a64a66e0f4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:36 +0000
Subject: [PATCH 03/60] fix: find the pak footer by the offset its version uses

Files shorter than 0xCD bytes (a small version 1 to 7 pak) failed with an I/O
error, and magic bytes inside the index (an entry name can contain them) took
precedence over the real footer.
---
 unreal_pak/src/index.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..31b42db 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -160,11 +160,27 @@ impl Footer {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
         let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
 
+        let file_len = reader.seek(SeekFrom::End(0))?;
+
         let mut magic_offset = None;
         for offset in possible_offsets {
+            if file_len < -offset as u64 {
+                break;
+            }
             reader.seek(SeekFrom::End(offset))?;
-            if reader.read_u32::<BE>()? == PAK_MAGIC {
+            if reader.read_u32::<BE>()? != PAK_MAGIC {
+                continue;
+            }
+            // index data can contain the magic as well, the version has to belong to the offset
+            let version = reader.read_u32::<LE>()?;
+            if match offset {
+                -0x2C => version <= 8,
+                -0xAC => version == 8,
+                -0xCC => version == 8 || version >= 10,
+                _ => version == 9,
+            } {
                 magic_offset = Some(offset);
+                break;
             }
         }
         let magic_offset = magic_offset.ok_or_else(PakError::pak_invalid)?;
-- 
2.43.0


From 4caff3fc580f6adffde5e29598538164b6f526f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:36 +0000
Subject: [PATCH 04/60] fix: write the compression method names of v8a paks

Without them the footer looked like v8b with no compression methods, and
compressed entries came back as their compressed bytes.
---
 unreal_pak/src/index.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 31b42db..8af12d1 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -266,8 +266,10 @@ impl Footer {
             writer.write_u8(0)?;
         }
 
-        // compression methods
-        if footer.pak_version >= PakVersion::FnameBasedCompressionMethod {
+        // compression methods, v8a only has four
+        if footer.pak_version == PakVersion::FnameBasedCompressionMethodInitial {
+            writer.write_all(&footer.compression_methods.as_bytes()[..4 * 0x20])?;
+        } else if footer.pak_version >= PakVersion::FnameBasedCompressionMethod {
             writer.write_all(footer.compression_methods.as_bytes().as_slice())?;
         }
 
-- 
2.43.0


From 9a622ae463118dbadac33399890333ec5999a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 05/60] fix: read exactly the announced number of array
 elements

The loop ran to the vector's capacity, which is only a lower bound (and
unbounded for zero-sized elements), and a damaged count allocated up front.
---
 unreal_helpers/src/read_ext.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..187d03d 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -43,8 +43,9 @@ impl<R: Read + Seek> UnrealReadExt for R {
         &mut self,
         mut f: impl FnMut(&mut Self) -> io::Result<T>,
     ) -> io::Result<Vec<T>> {
-        let mut buf = Vec::with_capacity(self.read_u32::<LE>()? as usize);
-        for _ in 0..buf.capacity() {
+        let len = self.read_u32::<LE>()?;
+        let mut buf = Vec::new();
+        for _ in 0..len {
             buf.push(f(self)?);
         }
         Ok(buf)
-- 
2.43.0


From a77e80690474be87d89fa3e07d3a85c22645a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 06/60] fix: reject a string length of i32::MIN instead of
 overflowing

---
 unreal_helpers/src/read_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index 187d03d..524fefd 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -55,7 +55,7 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            true => (len.saturating_neg(), true),
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
-- 
2.43.0


From 4a9e8156961f7645178c1828a3fcc1633a610e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 07/60] fix: count the terminator in the size returned for
 UTF-16 strings

---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From c5dab9b0839bed5779eb010d7dcd51cdc59498dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 08/60] fix: reject guid text with characters that are not hex
 digits

Non-ASCII text of 32 bytes panicked in slicing, and signs were accepted.
---
 unreal_helpers/src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/guid.rs b/unreal_helpers/src/guid.rs
index 71509a8..d821abc 100644
--- a/unreal_helpers/src/guid.rs
+++ b/unreal_helpers/src/guid.rs
@@ -214,7 +214,7 @@ impl FromStr for Guid {
             return Ok(Guid::new([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From bc4f6f767e8c42a4282872643cfb412382121205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 09/60] fix: take dollar signs in a game name literally

---
 unreal_helpers/src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/path.rs b/unreal_helpers/src/path.rs
index 910416a..b496cca 100644
--- a/unreal_helpers/src/path.rs
+++ b/unreal_helpers/src/path.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{NoExpand, Regex};
 
 lazy_static! {
     static ref GAME_REGEX: Regex = Regex::new(r"^/Game/").unwrap();
@@ -19,7 +19,7 @@ pub fn game_to_absolute(game_name: &str, path: &str) -> Option<String> {
     }
 
     let path_str = GAME_REGEX
-        .replace(path, String::from(game_name) + "/Content/")
+        .replace(path, NoExpand(&(String::from(game_name) + "/Content/")))
         .to_string();
     let path = Path::new(&path_str);
     match path.extension() {
-- 
2.43.0


From 2e8d26403bd8a85221967d693ef0c2ab6d887e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:25 +0000
Subject: [PATCH 10/60] fix: do not crash on AC7 files shorter than the file
 tag

---
 unreal_asset/src/ac7.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/ac7.rs b/unreal_asset/src/ac7.rs
index 8f5e40d..a020f84 100644
--- a/unreal_asset/src/ac7.rs
+++ b/unreal_asset/src/ac7.rs
@@ -130,7 +130,8 @@ pub fn decrypt(uasset: &[u8], uexp: &[u8], mut key: AC7XorKey) -> (Vec<u8>, Vec<
 /// Decrypt a uasset file using a given key
 pub fn decrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut decrypted = vec![0u8; uasset.len()];
-    decrypted[..4].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)); // todo: replace with constant
+    let magic_len = decrypted.len().min(4);
+    decrypted[..magic_len].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)[..magic_len]); // todo: replace with constant
 
     for i in 4..uasset.len() {
         decrypted[i] = key.xor_byte(uasset[i]);
@@ -163,7 +164,8 @@ const AC7_ASSET_MAGIC: u32 = 0x37454341;
 /// Encrypt a uasset file using a given key
 pub fn encrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut encrypted = vec![0u8; uasset.len()];
-    encrypted[..4].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC));
+    let magic_len = encrypted.len().min(4);
+    encrypted[..magic_len].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC)[..magic_len]);
 
     for i in 4..uasset.len() {
         encrypted[i] = key.xor_byte(uasset[i]);
-- 
2.43.0


From aab12b47e41b4b513aabceefee418ca7c7063542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:33 +0000
Subject: [PATCH 11/60] fix: rewind the second part of a chain when seeking
 back into the first

---
 unreal_asset/unreal_asset_base/src/containers/chain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..2712aaa 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -80,7 +80,10 @@ impl<C: Read + Seek> Seek for Chain<C> {
             Some(sec) => match pos {
                 SeekFrom::Start(offset) => {
                     self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
+                        true => {
+                            sec.rewind()?;
+                            self.first.seek(pos)?
+                        }
                         false => {
                             self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
                         }
-- 
2.43.0


From b527e0cc09b7d5645043b65054e5133a5d748d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:40 +0000
Subject: [PATCH 12/60] fix: refuse seeks before the start of a chain

---
 .../unreal_asset_base/src/containers/chain.rs   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 2712aaa..6980abf 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,6 +1,6 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
@@ -90,11 +90,18 @@ impl<C: Read + Seek> Seek for Chain<C> {
                     };
                     Ok(offset)
                 }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
+                SeekFrom::End(offset) => {
+                    let target = (self.first_len + self.second_len)
+                        .checked_add_signed(offset)
+                        .ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
+                    self.seek(SeekFrom::Start(target))
+                }
                 SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
+                    let target = self
+                        .pos
+                        .checked_add_signed(offset)
+                        .ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
+                    self.seek(SeekFrom::Start(target))
                 }
             },
             None => self.first.seek(pos),
-- 
2.43.0


From a06d51d3cd4853044c945d835ecb984421868195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:49 +0000
Subject: [PATCH 13/60] fix: give each entry of an indexed map an insertion
 index of its own

After a removal the next index was the map's length, which a later entry
may still have.
---
 .../unreal_asset_base/src/containers/indexed_map/mod.rs   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..d2854d8 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -568,17 +568,21 @@ where
             return &mut self.store[*storage_place];
         }
 
+        let index = self
+            .index_map
+            .last_key_value()
+            .map_or(0, |(last, _)| last + 1);
         let key_rc = KeyItem(Rc::new(key));
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
-- 
2.43.0


From 76c1a0a2d465c6c3afb23ee67de13814cbcf24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:49 +0000
Subject: [PATCH 14/60] fix: keep the iteration order of an indexed map right
 after a removal

Entries behind a removed one kept their old place in the order, so the
next removal took out a different entry or crashed.
---
 .../unreal_asset_base/src/containers/indexed_map/mod.rs        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index d2854d8..c4ff801 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -684,6 +684,9 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        for place in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*place].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From 67d15be2ab3af3493f680f76f7f93eb92c8c8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:49 +0000
Subject: [PATCH 15/60] fix: iterate an indexed map with insertion indexes, not
 storage places

iter_key and the removal functions already report insertion indexes; after
a removal the two differ.
---
 .../src/containers/indexed_map/mod.rs         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index c4ff801..9ab681f 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -162,7 +162,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -173,7 +177,11 @@ where
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -222,10 +230,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -242,10 +251,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -282,7 +292,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -298,7 +308,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
-- 
2.43.0


From c30751610ff7a9f4d6d5bedcd060f77dfe84c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:50 +0000
Subject: [PATCH 16/60] fix: compare the values of indexed maps

Maps with the same keys and different values were equal, and maps with the
same entries and a different history were not.
---
 .../src/containers/indexed_map/mod.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 9ab681f..ed7601e 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -771,15 +771,19 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.iter().eq(other.iter())
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From eeabae28830254c4f38710cd020cb77d724dbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:24 +0000
Subject: [PATCH 17/60] fix: keep the places of repeated names in a name batch

---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..c678716 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -36,7 +36,7 @@ impl NameMap {
         name_map.get_mut().name_map_index_list = Vec::with_capacity(name_batch.len());
 
         for name in name_batch {
-            name_map.get_mut().add_name_reference(name.clone(), false);
+            name_map.get_mut().add_name_reference(name.clone(), true);
         }
 
         name_map
-- 
2.43.0


From 76ffa03c34d07f60f4db4211d9664fd19e2b604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:50 +0000
Subject: [PATCH 18/60] fix: keep the places of repeated names in a registry
 name table

---
 unreal_asset/unreal_asset_registry/src/name_table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
index 21929f4..ddc9d3c 100644
--- a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
+++ b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
@@ -44,7 +44,7 @@ impl<'reader, Reader: ArchiveReader<PackageIndex>> NameTableReader<'reader, Read
                 let name = reader.read_fstring()?.ok_or_else(|| {
                     Error::invalid_file(format!("Name table entry {i} is missing a name"))
                 })?;
-                name_map.get_mut().add_name_reference(name, false);
+                name_map.get_mut().add_name_reference(name, true);
 
                 if reader.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
                     let _non_case_preserving_hash = reader.read_u16::<LE>()?;
-- 
2.43.0


From f22903ec78536885e58a064034f71d74bb3d6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:03 +0000
Subject: [PATCH 19/60] fix: do not crash looking up an import just past the
 import table

---
 unreal_asset/src/asset.rs                | 4 ++--
 unreal_asset/src/asset_archive_writer.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..fa71b67 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -826,8 +826,8 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        let index = -(index.index + 1);
+        if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
 
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..239a3e9 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,8 +55,8 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        let index = -(index.index + 1);
+        if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
 
-- 
2.43.0


From f4e375125cc62677491342bcba89369ef86b8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:03 +0000
Subject: [PATCH 20/60] fix: refuse an export position that has no package
 index

---
 unreal_asset/unreal_asset_base/src/types/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/mod.rs b/unreal_asset/unreal_asset_base/src/types/mod.rs
index f202f24..5a0186b 100644
--- a/unreal_asset/unreal_asset_base/src/types/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/types/mod.rs
@@ -101,7 +101,12 @@ impl PackageIndex {
             true => Err(Error::invalid_package_index(
                 "Export index must be greater than zero".to_string(),
             )),
-            false => Ok(PackageIndex::new(export_index + 1)),
+            false => export_index
+                .checked_add(1)
+                .map(PackageIndex::new)
+                .ok_or_else(|| {
+                    Error::invalid_package_index("Export index is too large".to_string())
+                }),
         }
     }
 }
-- 
2.43.0


From 012118fd994fdd68c4d8fb38167cb85e779061bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 21/60] fix: read the properties an unversioned header lists
 and stop after the last

---
 unreal_asset/unreal_asset_properties/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 8025023..30bc501 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -540,9 +540,14 @@ impl Property {
 
             loop {
                 let current_fragment = header.fragments[header.current_fragment_index];
-                if header.unversioned_property_index > current_fragment.get_last_num() as usize {
+                let fragment_end =
+                    current_fragment.first_num as usize + current_fragment.value_num as usize;
+                if header.unversioned_property_index < fragment_end {
                     break;
                 }
+                if current_fragment.is_last {
+                    return Ok(None);
+                }
 
                 header.current_fragment_index += 1;
                 header.unversioned_property_index =
-- 
2.43.0


From 8392dd28922c792a4327182e5c7e50d538c059a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 22/60] fix: do not overflow on unversioned headers of large or
 empty fragments

---
 .../src/unversioned/header.rs                 | 27 ++++++++++---------
 .../unreal_asset_properties/src/lib.rs        |  4 +--
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..49888a3 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -16,7 +16,7 @@ pub struct UnversionedHeaderFragment {
     /// Number of subsequent property values stured
     pub value_num: u8,
     /// First element index of this fragment
-    pub first_num: u8,
+    pub first_num: u32,
     /// Is this the last header fragment?
     pub is_last: bool,
     /// Has zeros
@@ -46,9 +46,12 @@ impl UnversionedHeaderFragment {
     const VALUE_NUM_SHIFT: u16 = 9;
     const IS_LAST_MASK: u16 = 0x0100u16;
 
-    /// Get last element index of this fragment
-    pub fn get_last_num(&self) -> u8 {
-        self.first_num + self.value_num - 1
+    /// Get last element index of this fragment, [`None`] if it has no elements
+    pub fn get_last_num(&self) -> Option<u32> {
+        match self.value_num {
+            0 => None,
+            value_num => Some(self.first_num + value_num as u32 - 1),
+        }
     }
 
     /// Read an `UnversionedHeaderFragment` from an asset
@@ -105,7 +108,7 @@ impl UnversionedHeader {
     /// Loads zero mask data from an asset
     fn load_zero_mask_data<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
-        num_bits: u16,
+        num_bits: u32,
     ) -> Result<BitVec<u8, Lsb0>, Error> {
         if num_bits <= 8 {
             let mut data = [0u8; 1];
@@ -135,20 +138,20 @@ impl UnversionedHeader {
 
         let mut fragments = Vec::new();
 
-        let mut first_num = 0;
-        let mut zero_mask_num = 0u16;
-        let mut unmasked_num = 0u16;
+        let mut first_num = 0u32;
+        let mut zero_mask_num = 0u32;
+        let mut unmasked_num = 0u32;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            fragment.first_num = first_num + fragment.skip_num as u32;
+            first_num += fragment.skip_num as u32 + fragment.value_num as u32;
 
             fragments.push(fragment);
 
             match fragment.has_zeros {
-                true => zero_mask_num += fragment.value_num as u16,
-                false => unmasked_num += fragment.value_num as u16,
+                true => zero_mask_num += fragment.value_num as u32,
+                false => unmasked_num += fragment.value_num as u32,
             };
 
             if fragment.is_last {
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 30bc501..f145446 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -1576,7 +1576,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
             let fragment = UnversionedHeaderFragment {
                 skip_num: skip_num as u8,
                 value_num: value_num as u8,
-                first_num: start_index as u8,
+                first_num: start_index,
                 is_last: false,
                 has_zeros,
             };
@@ -1603,7 +1603,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
 
     for fragment in fragments.iter().filter(|e| e.has_zeros) {
         for i in 0..fragment.value_num {
-            let is_zero = zero_properties.contains(&((fragment.first_num + i) as u32));
+            let is_zero = zero_properties.contains(&(fragment.first_num + i as u32));
             if !is_zero {
                 has_non_zero_values = true;
             }
-- 
2.43.0


From f9314db09087e95bc0ff301bf039ca5cf59470fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 23/60] fix: an unversioned header has values unless its zero
 mask covers all of them

---
 unreal_asset/unreal_asset_base/src/unversioned/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index 49888a3..f84cbce 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -162,7 +162,7 @@ impl UnversionedHeader {
         let (zero_mask, has_non_zero_values) = match zero_mask_num > 0 {
             true => {
                 let mask = UnversionedHeader::load_zero_mask_data(asset, zero_mask_num)?;
-                let has_non_zero_values = unmasked_num > 0 || mask.iter().all(|e| !*e);
+                let has_non_zero_values = unmasked_num > 0 || mask.iter().take(zero_mask_num as usize).any(|e| !*e);
                 (mask, has_non_zero_values)
             }
             false => {
-- 
2.43.0


From bff0c02e85379ecce1ee24ea590eed65ea67aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 24/60] fix: write the zero mask of an unversioned header with
 the width it is read with

---
 .../unreal_asset_base/src/unversioned/header.rs        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index f84cbce..8e7fe96 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -197,7 +197,15 @@ impl UnversionedHeader {
         }
 
         if !self.zero_mask.is_empty() {
-            asset.write_all(self.zero_mask.as_raw_slice())?;
+            // same width as when reading
+            let num_bits = match self.zero_mask.len() {
+                0..=8 => 8,
+                9..=16 => 16,
+                num_bits => (num_bits + 31) / 32 * 32,
+            };
+            let mut zero_mask = self.zero_mask.clone();
+            zero_mask.resize(num_bits, false);
+            asset.write_all(zero_mask.as_raw_slice())?;
         }
 
         Ok(())
-- 
2.43.0


From 269256ef2fddff6782ec899cff957b102f6e95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:21 +0000
Subject: [PATCH 25/60] fix: count the assert line number as the two bytes it
 has in bytecode

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..e6f33ec 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From 51451f82c0a2d8f3e44afc73a7b2469d05d49307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:21 +0000
Subject: [PATCH 26/60] fix: count the name of an instrumentation event as a
 script name

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index e6f33ec..97af2f5 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -3274,7 +3274,7 @@ impl KismetExpressionTrait for ExInstrumentationEvent {
             asset.write_fname(self.event_name.as_ref().ok_or_else(|| {
                 Error::no_data("event_type is InlineEvent but event_name is None".to_string())
             })?)?;
-            return Ok(1 + 2 * size_of::<i32>());
+            return Ok(1 + 12 /* FScriptName's iCode offset */);
         }
 
         Ok(1)
-- 
2.43.0


From 0db44be7130027f47f76517618ca3429f5bd18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:21 +0000
Subject: [PATCH 27/60] fix: count the entries of a map in bytecode as
 key-value pairs

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 97af2f5..85f6015 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -2533,7 +2533,7 @@ impl KismetExpressionTrait for ExMapConst {
         let mut offset = size_of::<i32>();
         offset += self.key_property.write(asset)?;
         offset += self.value_property.write(asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?; // number of key-value pairs
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
@@ -2952,7 +2952,7 @@ impl KismetExpressionTrait for ExSetMap {
     ) -> Result<usize, Error> {
         let mut offset = size_of::<i32>();
         offset += KismetExpression::write(self.map_property.as_ref(), asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?; // number of key-value pairs
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
-- 
2.43.0


From acfdfa48f1cbaedc085c2aa5d134a045166ca526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 28/60] fix: give the animation physics custom version its
 known mappings

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index f5b3686..e1df1dc 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -48,7 +48,7 @@ lazy_static! {
         ( (0xD7296918, 0x1DD64BDD, 0x9DE264A8, 0x3CC13884).into(), (String::from("FVRObjectVersion"), None) ),
         ( (0xC2A15278, 0xBFE74AFE, 0x6C1790FF, 0x531DF755).into(), (String::from("FLoadTimesObjectVersion"), None) ),
         ( (0x6EACA3D4, 0x40EC4CC1, 0xB7868BED, 0x9428FC5).into(),  (String::from("FGeometryObjectVersion"), None) ),
-        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), None) ),
+        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), Some(FAnimPhysObjectVersion::VERSION_MAPPINGS)) ),
         ( (0xAF43A65D, 0x7FD34947, 0x98733E8E, 0xD9C1BB05).into(), (String::from("FAnimObjectVersion"), None) ),
         ( (0x6B266CEC, 0x1EC74B8F, 0xA30BE4D9, 0x0942FC07).into(), (String::from("FReflectionCaptureObjectVersion"), None) ),
         ( (0x0DF73D61, 0xA23F47EA, 0xB72789E9, 0x0C41499A).into(), (String::from("FAutomationObjectVersion"), None) ),
-- 
2.43.0


From 2c43fcdb011a0c8ff4793e63d3ef5a7474bb635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 29/60] fix: give an engine version the last custom version
 introduced by then

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index e1df1dc..1445955 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -151,7 +151,8 @@ impl CustomVersion {
     ) -> Option<i32> {
         self.version_mappings
             .iter()
-            .find(|(version, _)| *version <= engine_version)
+            .filter(|(version, _)| *version <= engine_version)
+            .max_by_key(|(version, _)| *version)
             .map(|(_, version)| *version)
     }
 
-- 
2.43.0


From 62390b88b904b8bfc1c80a888509a4c8d74a06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 30/60] fix: guess only engine versions that have both object
 versions

---
 .../unreal_asset_base/src/engine_version.rs   | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 9b311f2..0e9fda2 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -240,23 +240,12 @@ pub fn get_possible_versions(
     object_version: ObjectVersion,
     object_version_ue5: ObjectVersionUE5,
 ) -> Vec<EngineVersion> {
-    let mut possible_versions = Vec::new();
-    if let Some(ue5_version) = OBJECT_VERSION_TO_ENGINE_VERSION_UE5
+    OBJECT_VERSION_TO_ENGINE_VERSION
         .iter()
-        .find(|(version, _)| *version == object_version_ue5)
+        .filter(|(version, _)| *version == object_version)
         .map(|(_, engine_version)| *engine_version)
-    {
-        possible_versions.push(ue5_version);
-    }
-
-    possible_versions.extend(
-        OBJECT_VERSION_TO_ENGINE_VERSION
-            .iter()
-            .find(|(version, _)| *version == object_version)
-            .map(|(_, engine_version)| *engine_version),
-    );
-
-    possible_versions
+        .filter(|engine_version| get_object_versions(*engine_version).1 == object_version_ue5)
+        .collect()
 }
 
 /// Get object versions for a given engine version
-- 
2.43.0


From 1c8411b9a04085a00b9e4da04ea43ef529cdfcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 31/60] fix: do not overflow guessing from the largest custom
 version number

---
 unreal_asset/unreal_asset_base/src/engine_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 0e9fda2..fe7fabe 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -294,7 +294,7 @@ pub fn guess_engine_version(
             .get_engine_version_from_version_number(custom_version.version)
             .unwrap_or(EngineVersion::UNKNOWN);
         let current_max_introduced = custom_version
-            .get_engine_version_from_version_number(custom_version.version + 1)
+            .get_engine_version_from_version_number(custom_version.version.saturating_add(1))
             .unwrap_or(EngineVersion::UNKNOWN);
 
         if current_min_introduced != EngineVersion::UNKNOWN
-- 
2.43.0


From 941914c2522b78db9d1364c541da62ea681e65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:11 +0000
Subject: [PATCH 32/60] fix: report a malformed dependency version as an error
 instead of panicking

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From 5981c1cc9e021b9c472ec13aee247390f0022144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:11 +0000
Subject: [PATCH 33/60] fix: compare and hash integrator data by content,
 including arrays and objects

---
 unreal_mod_metadata/src/lib.rs |  3 ++-
 unreal_mod_metadata/src/v2.rs  | 26 ++++++--------------------
 2 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..8e36469 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -18,7 +18,8 @@ macro_rules! hash_value {
             Value::Number(n) => n.hash($state),
             Value::Bool(b) => b.hash($state),
             Value::Null => (),
-            _ => unreachable!(),
+            Value::Array(a) => a.len().hash($state),
+            Value::Object(o) => o.len().hash($state),
         }
     };
 }
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..a66a8c8 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -1,5 +1,5 @@
-use std::collections::{hash_map::DefaultHasher, HashMap};
-use std::hash::{Hash, Hasher};
+use std::collections::{BTreeMap, HashMap};
+use std::hash::Hash;
 use std::marker::PhantomData;
 use std::str::FromStr;
 
@@ -96,13 +96,13 @@ impl Hash for Metadata {
         self.download.hash(state);
 
         self.dependencies.len().hash(state);
-        for (element_name, element) in &self.dependencies {
+        for (element_name, element) in self.dependencies.iter().collect::<BTreeMap<_, _>>() {
             element_name.hash(state);
             element.hash(state);
         }
 
         self.integrator.len().hash(state);
-        for (element_name, element) in &self.integrator {
+        for (element_name, element) in self.integrator.iter().collect::<BTreeMap<_, _>>() {
             element_name.hash(state);
             hash_value!(element, state);
         }
@@ -113,7 +113,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +125,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0


From 54f53765249172fc91840bd2c275a0ebe3138585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 34/60] fix: check dependency node indexes against the nodes of
 the registry

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..45acad0 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 40f46fdf37b888c407fd8097af3505904cdfd56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 35/60] fix: write the number of imported classes the reader
 expects

---
 .../unreal_asset_registry/src/objects/asset_package_data.rs      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
index ecce2b5..9374361 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
@@ -146,6 +146,7 @@ impl AssetPackageData {
                 RegistryError::version("Imported classes".to_string(), self.version)
             })?;
 
+            asset.write_i32::<LE>(imported_classes.len() as i32)?;
             for immported_class in imported_classes {
                 asset.write_fname(immported_class)?;
             }
-- 
2.43.0


From b66548121231ef1240814b77ef01b7e6abfd6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 36/60] fix: measure the dependency section from where the
 reader does

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..4b4cca3 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -129,6 +129,7 @@ impl AssetRegistryState {
         } else {
             let pos = writer.position();
             writer.write_i64::<LE>(0)?;
+            let start_pos = writer.position();
             writer.write_i32::<LE>(self.depends_nodes.len() as i32)?;
 
             for depends_node in &self.depends_nodes {
@@ -137,7 +138,7 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            writer.write_i64::<LE>(end_pos as i64 - start_pos as i64)?;
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From 4de3913df545814bd3a256e087e7d71c85febd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 37/60] fix: read and write flagged dependency lists in the
 layout both sides agree on

---
 .../src/objects/depends_node.rs               | 89 +++++++------------
 1 file changed, 31 insertions(+), 58 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 45acad0..962f223 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -151,9 +151,9 @@ impl DependsNode {
     /// Package `EDependencyProperty` enum into a byte
     #[allow(clippy::identity_op)] // allow for clarity
     fn package_properties_to_byte(properties: EDependencyProperty) -> u8 {
-        (0x1 * (properties & EDependencyProperty::HARD).bits() as u8)
-            | (0x2 * (properties & EDependencyProperty::GAME).bits() as u8)
-            | (0x4 * (properties & EDependencyProperty::BUILD).bits() as u8)
+        (0x1 * properties.contains(EDependencyProperty::HARD) as u8)
+            | (0x2 * properties.contains(EDependencyProperty::GAME) as u8)
+            | (0x4 * properties.contains(EDependencyProperty::BUILD) as u8)
     }
 
     /// Read `DependsNode` dependencies
@@ -161,6 +161,7 @@ impl DependsNode {
         asset: &mut Reader,
         preallocated_depends_node_buffer: &[DependsNode],
         flag_set_width: i32,
+        hard_bit: i32,
     ) -> Result<LoadedDependencyNodes, Error> {
         let mut sort_indexes = Vec::new();
         let mut pointer_dependencies = Vec::new();
@@ -202,34 +203,31 @@ impl DependsNode {
 
         let mut hard_dependencies = Vec::new();
         let mut soft_dependencies = Vec::new();
+        let mut hard_indexes = Vec::new();
+        let mut soft_indexes = Vec::new();
 
-        for index in &sort_indexes {
-            let node = pointer_dependencies[*index as usize];
-            let package_flags = node.package_flags.as_ref().ok_or_else(|| {
-                Error::invalid_file(
-                    "No package flags on asset registry with version >= AddedDependencyFlags"
-                        .to_string(),
-                )
-            })?;
-
-            if package_flags
-                .get(*HARD_BIT as usize)
+        for index in sort_indexes {
+            let node = pointer_dependencies[index as usize];
+
+            if in_flag_bits
+                .get((index * flag_set_width + hard_bit) as usize)
                 .as_deref()
                 .copied()
                 .unwrap_or(false)
             {
                 hard_dependencies.push(node.clone());
+                hard_indexes.push(index);
             } else {
                 soft_dependencies.push(node.clone());
+                soft_indexes.push(index);
             }
         }
 
-        let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
-        for write_index in 0..in_dependencies.len() as i32 {
-            let read_index = &sort_indexes[write_index as usize];
-
+        // the flags are kept in the order the dependencies get written in
+        let mut out_flag_bits = BitVec::repeat(false, num_flag_bits as usize);
+        for (write_index, read_index) in hard_indexes.iter().chain(&soft_indexes).enumerate() {
             out_flag_bits.set_range_from_range(
-                write_index * flag_set_width,
+                write_index as i32 * flag_set_width,
                 flag_set_width,
                 &in_flag_bits,
                 read_index * flag_set_width,
@@ -248,51 +246,24 @@ impl DependsNode {
         soft_dependencies: &[DependsNode],
     ) -> Result<(), Error> {
         let dependencies_length = hard_dependencies.len() as i32 + soft_dependencies.len() as i32;
-        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
+        let num_flag_bits = dependencies_length * flag_set_width;
+        let mut out_flag_bits = BitVec::<u32, Lsb0>::repeat(false, num_flag_bits as usize);
 
         writer.write_i32::<LE>(dependencies_length)?;
 
-        for (i, hard_dependency) in hard_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(hard_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                i as i32 * flag_set_width,
-            );
-        }
-
-        let inital_soft_index = hard_dependencies.len() as i32;
-
-        for (i, soft_dependency) in soft_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(soft_dependency.index)?;
+        for (i, dependency) in hard_dependencies
+            .iter()
+            .chain(soft_dependencies)
+            .enumerate()
+        {
+            writer.write_i32::<LE>(dependency.index)?;
 
-            let index = out_flag_bits.len() as i32 + inital_soft_index;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                (i as i32 + inital_soft_index) * flag_set_width,
-            );
+            let index = i as i32 * flag_set_width;
+            out_flag_bits.set_range_from_range(index, flag_set_width, flags, index);
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
-
-        for byte in out_flag_bits.chunks(8).map(|chunk| {
-            let mut byte = 0u8;
-            for i in 0..8 {
-                if chunk[i] {
-                    byte |= 1 << i;
-                }
-            }
-            byte
-        }) {
-            writer.write_u8(byte)?;
+        for word in out_flag_bits.as_raw_slice() {
+            writer.write_u32::<LE>(*word)?;
         }
 
         Ok(())
@@ -379,6 +350,7 @@ impl DependsNode {
             asset,
             preallocated_depends_node_buffer,
             PACKAGE_FLAG_SET_WIDTH,
+            *HARD_BIT as i32,
         )?;
 
         let name_dependencies =
@@ -389,6 +361,7 @@ impl DependsNode {
                 asset,
                 preallocated_depends_node_buffer,
                 MANAGE_FLAG_SET_WIDTH,
+                0,
             )?;
 
         let referencers =
-- 
2.43.0


From 6d1f9debaa635bfeebf507c0fb434d8549f8e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 38/60] fix: reserve room for the size of a unique net id
 before writing its contents

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..91e4fca 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?;
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From 9c60cc47ad458f1387353831fc4000124b80458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 39/60] fix: write the sub face index of cooked font data

---
 .../src/slate_core/font_data_property.rs                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..17c87c3 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,10 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.ok_or_else(|| {
+                PropertyError::property_field_none("sub_face_index", "Some(i32)")
+            })?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 4fff7601d59a5371d7b84277bbe82998304d4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 40/60] fix: write the weight of a cloth vertex once, after its
 indices

---
 .../unreal_asset_properties/src/cloth_lod_property.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..1741ad1 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -89,13 +89,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From 886a3469178049a986a8ada151e8c56c088b983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 41/60] fix: keep every key a map property removes

---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..402a6e0 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -156,8 +156,7 @@ impl MapProperty {
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
         for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
-            vec.push(MapProperty::map_type_to_class(
+            let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -165,8 +164,8 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
+            )?;
+            keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From 47aaa8fd33bdf9079c40bf0fb0f3466c549ceedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 42/60] fix: write the struct guid of a struct array, not the
 property guid

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..3b3ca9e 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From fcbf231d1bc5791a09a0aeee0f8771d198177ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 43/60] fix: record the length of a struct array's elements
 whatever header was asked for

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 3b3ca9e..85c35ea 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -313,7 +313,9 @@ impl ArrayProperty {
                 asset.seek(SeekFrom::Start(length_loc))?;
                 let length = full_len
                     - 32
-                    - match include_header {
+                    - match asset.get_object_version()
+                        >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
+                    {
                         true => 1,
                         false => 0,
                     };
-- 
2.43.0


From c59dbc28129263401eb21ae5cccf04592c94ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 44/60] fix: write the corners of a box property without a
 property guid of their own

---
 unreal_asset/unreal_asset_properties/src/vector_property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/vector_property.rs b/unreal_asset/unreal_asset_properties/src/vector_property.rs
index 54bd823..5b1148a 100644
--- a/unreal_asset/unreal_asset_properties/src/vector_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/vector_property.rs
@@ -549,7 +549,7 @@ impl PropertyTrait for BoxProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+            self.v1.write(asset, false)? + self.v2.write(asset, false)?;
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
     }
@@ -588,7 +588,7 @@ impl PropertyTrait for Box2DProperty {
         optional_guid_write!(self, asset, include_header);
 
         let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+            self.v1.write(asset, false)? + self.v2.write(asset, false)?;
 
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
-- 
2.43.0


From 9ee04484d650253d7b6888b6d6f52f55da59661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 45/60] fix: read as many evaluation tree items as the
 container holds

---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..cd38712 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::with_capacity(items_amount as usize);
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From 79662364b5e4a80de444518e23ca6eb0dce4c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 46/60] fix: write the absent type name of an empty evaluation
 template or track implementation

---
 .../src/movies/movie_scene_eval_template_ptr_property.rs      | 4 ++++
 .../movies/movie_scene_track_implementation_ptr_property.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..3aa9b4a 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -88,6 +88,10 @@ impl PropertyTrait for MovieSceneEvalTemplatePtrProperty {
 
         let properties = sorted_properties.as_ref().unwrap_or(&self.value);
 
+        if properties.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         for property in properties.iter() {
             if property.get_name() == "TypeName" {
                 let str_property: &StrProperty = cast!(Property, StrProperty, property)
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..a172212 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -76,6 +76,10 @@ impl PropertyTrait for MovieSceneTrackImplementationPtrProperty {
 
         let mut had_typename = false;
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         for property in &self.value {
             if property.get_name() == "TypeName" {
                 let str_property: &StrProperty = cast!(Property, StrProperty, property)
-- 
2.43.0


From 19cf498030abc70ce8dd3af93922286fc4df0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 47/60] fix: do not keep the name map borrowed while reading a
 property

---
 unreal_asset/unreal_asset_properties/src/lib.rs          | 3 ++-
 unreal_asset/unreal_asset_properties/src/map_property.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index f145446..1e368fd 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -644,7 +644,8 @@ impl Property {
             return Ok(EmptyProperty::new(type_name.clone(), name, ancestry).into());
         }
 
-        type_name.get_content(|ty| {
+        // reading some properties adds names, so the name map can't stay borrowed here
+        FName::from_slice(&type_name.get_owned_content()).get_content(|ty| {
             Ok::<Property, Error>(match ty {
                 "BoolProperty" => BoolProperty::new(
                     asset,
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 402a6e0..f77cfa6 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -51,7 +51,8 @@ impl MapProperty {
         is_key: bool,
     ) -> Result<Property, Error> {
         let new_ancestry = ancestry.with_parent(name.clone());
-        type_name.get_content(|ty| match ty {
+        // reading some properties adds names, so the name map can't stay borrowed here
+        FName::from_slice(&type_name.get_owned_content()).get_content(|ty| match ty {
             "StructProperty" => {
                 let mut struct_type = None;
 
-- 
2.43.0


From 81b54be3cac9c0c8f966bc6dd96ce675e08c8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 48/60] fix: key an expanded static array by the array index of
 each of its entries

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..19f26ef 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -112,7 +112,7 @@ impl UsmapSchema {
                 property.schema_index += j as u16;
 
                 properties.insert(
-                    (property.name.clone(), property.schema_index as u32),
+                    (property.name.clone(), property.array_index as u32),
                     property,
                 );
             }
-- 
2.43.0


From e8f803a1d0ddb825160132fa6f93b70aca37c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 49/60] fix: remember the version a usmap file was read with

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 19f26ef..6aa9bf4 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -249,6 +249,7 @@ impl Usmap {
         }
 
         let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
+        self.version = usmap_version;
 
         let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
-- 
2.43.0


From 9b85897d98aeb7cad2768d0bb470bdfb26a0a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 50/60] fix: read boolean property exports with their size and
 native flag

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..c575a33 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -196,6 +196,7 @@ impl UProperty {
                 "UInt64Property" => UUInt64Property::new(asset)?.into(),
                 "NameProperty" => UNameProperty::new(asset)?.into(),
                 "StrProperty" => UStrProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 _ => UGenericProperty::new(asset)?.into(),
             })
         })?;
-- 
2.43.0


From 1d81cd6188f0c8ee0539cf770bdd69baccb4dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 51/60] fix: report an unknown replication condition instead of
 dropping it

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index c575a33..ba444d8 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -299,7 +299,7 @@ impl UGenericProperty {
             match asset.get_custom_version::<FReleaseObjectVersion>().version
                 >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32
             {
-                true => asset.read_u8()?.try_into().ok(),
+                true => Some(asset.read_u8()?.try_into()?),
                 false => None,
             };
 
-- 
2.43.0


From 1a60b5ff6d20172d81c688d2fcadf35adc321c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 52/60] fix: read the single chunk id of old packages

---
 unreal_asset/src/asset.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index fa71b67..742fdb6 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -712,8 +712,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
-- 
2.43.0


From 6157ca73afb2d4500c2e9a65c519f89059e99d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 53/60] fix: write the compatible engine version

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 742fdb6..e8ed93e 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1089,7 +1089,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From fc8eaff8bfb72061316552d9ec6f618776b1a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 54/60] fix: write no UE3 version for packages that record none

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index e8ed93e..8c13d12 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1005,7 +1005,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From afd5dadcaf8ae03dab8b24830f004401c8bfb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 55/60] fix: read the hash of an empty name

---
 unreal_asset/unreal_asset_base/src/reader/archive_reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..d36bb9e 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -110,7 +110,6 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         .ok_or_else(|| Error::no_data("name_map_string is None".to_string()))?;
 
         let hash = match self.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED
-            && !string.is_empty()
         {
             true => self.read_u32::<LE>()?,
             false => 0,
-- 
2.43.0


From ac217291e50189482b2888ddd3345a69b218d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 56/60] fix: keep a depends offset of zero

---
 unreal_asset/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8c13d12..be5170e 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1266,9 +1266,10 @@ impl<'a, C: Read + Seek> Asset<C> {
             )?;
         }
 
+        // files that record no depends offset despite having a depends map keep recording none
         let depends_offset = match self.depends_map {
-            Some(_) => serializer.position() as i32,
-            None => 0,
+            Some(_) if self.depends_offset > 0 => serializer.position() as i32,
+            _ => 0,
         };
 
         if let Some(ref map) = self.depends_map {
-- 
2.43.0


From c8eac4c7c0ff93a49aa91acd9d809bc5fae627f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 57/60] fix: do not add default custom versions to a versioned
 asset

---
 unreal_asset/src/asset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index be5170e..d30635d 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -590,7 +590,11 @@ impl<'a, C: Read + Seek> Asset<C> {
             let old_container = self.asset_data.summary.custom_versions.clone();
             self.asset_data.summary.custom_versions = self.read_custom_version_container(
                 self.get_custom_version_serialization_format(),
-                Some(&old_container),
+                // a versioned asset lists the versions it uses itself
+                self.asset_data
+                    .summary
+                    .unversioned
+                    .then_some(old_container.as_slice()),
             )?;
         }
 
-- 
2.43.0


From a172fa426d9cb37e821210f96c1be8cd4918c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 58/60] fix: do not add names to the name map while reading

---
 .../unreal_asset_properties/src/array_property.rs |  2 +-
 .../src/cloth_lod_property.rs                     | 15 +++------------
 .../movie_scene_eval_template_ptr_property.rs     |  2 +-
 ...vie_scene_track_implementation_ptr_property.rs |  2 +-
 .../section_evaluation_data_tree_property.rs      |  5 +----
 5 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 85c35ea..50edcba 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -155,7 +155,7 @@ impl ArrayProperty {
                 .get_content(|name| asset.get_array_struct_type_override().get_by_key(name))
                 .cloned()
             {
-                full_type = asset.add_fname(&type_override);
+                full_type = FName::from_slice(&type_override);
             }
 
             if num_entries == 0 {
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 1741ad1..95acf59 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -25,10 +25,7 @@ impl MeshToMeshVertData {
     ) -> Result<Self, Error> {
         let position_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("PositionBaryCoordsAndDist"),
+            FName::from_slice("PositionBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -36,10 +33,7 @@ impl MeshToMeshVertData {
 
         let normal_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("NormalBaryCoordsAndDist"),
+            FName::from_slice("NormalBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -47,10 +41,7 @@ impl MeshToMeshVertData {
 
         let tangent_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("TangentBaryCoordsAndDist"),
+            FName::from_slice("TangentBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 3aa9b4a..70274fa 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index a172212..48ad7f7 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs b/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs
index 22c993b..aeb7db0 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs
@@ -43,10 +43,7 @@ impl SectionEvaluationTree {
             let (unversioned_header, sorted_properties) = match generate_unversioned_header(
                 writer,
                 node,
-                &writer
-                    .get_name_map()
-                    .get_mut()
-                    .add_fname("SectionEvaluationDataTree"),
+                &FName::from_slice("SectionEvaluationDataTree"),
             )? {
                 Some((a, b)) => (Some(a), Some(b)),
                 None => (None, None),
-- 
2.43.0


From 5fa675360236e98837264bd3b05a4cb8ab5c45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:14 +0000
Subject: [PATCH 59/60] fix: complete the name map before writing it

---
 unreal_asset/src/asset.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index d30635d..abdda9e 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1,7 +1,7 @@
 //! Main [`Asset`] type
 
 use std::fmt::{Debug, Formatter};
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 use std::mem::size_of;
 
 use byteorder::{ReadBytesExt, WriteBytesExt, BE, LE};
@@ -1190,6 +1190,25 @@ impl<'a, C: Read + Seek> Asset<C> {
             )));
         }
 
+        // writing an export may add names to the name map, which has to be complete before it is written
+        let mut scratch = Cursor::new(Vec::new());
+        let mut raw_scratch = RawWriter::new(
+            &mut scratch,
+            self.asset_data.object_version,
+            self.asset_data.object_version_ue5,
+            self.asset_data.use_event_driven_loader,
+            self.name_map.clone(),
+        );
+        let mut scratch_serializer = AssetArchiveWriter::new(
+            &mut raw_scratch,
+            &self.asset_data,
+            &self.imports,
+            self.name_map.clone(),
+        );
+        for export in &self.asset_data.exports {
+            export.write(&mut scratch_serializer)?;
+        }
+
         let header = AssetHeader {
             name_offset: self.name_offset,
             import_offset: self.import_offset,
-- 
2.43.0


From b271e0b3b18976f86136df9d1bb7425a1db4dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:26 +0000
Subject: [PATCH 60/60] fix: keep script bytecode raw when its expressions run
 past its end

---
 unreal_asset/unreal_asset_exports/src/struct_export.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..3b8e25c 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -118,6 +118,11 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         while (asset.position() - start_offset) < storage_size as u64 {
             code.push(KismetExpression::new(asset)?);
         }
+        if asset.position() - start_offset != storage_size as u64 {
+            return Err(Error::invalid_file(
+                "Script bytecode does not end where its last expression does".to_string(),
+            ));
+        }
         Ok(code)
     }
 }
-- 
2.43.0

