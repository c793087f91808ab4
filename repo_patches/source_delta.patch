From 02ac6c004bf5285c9563a2f92de75c06c8fb0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 01/12] fix: mark the map dirty before any record is changed

An in-place update through the hash index and the first insert into an
empty map left the dirty flag unset, so flush/sync_all/sync_data did nothing.
---
 src/filedb/inner/dbxxx.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..f2ad853 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -629,6 +629,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     }
     #[inline]
     fn delete_at(&mut self, mut node_: IdxNode, i: usize) -> Result<(IdxNode, Option<Vec<u8>>)> {
+        self.dirty = true;
         #[cfg(not(feature = "tr_has_short_key"))]
         let key_offset = node_.get_ref().keys_get(i);
         #[cfg(feature = "tr_has_short_key")]
@@ -1133,6 +1134,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
-- 
2.43.0


From 781c782c2d0439980452e832010e003faa5d56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 02/12] fix: keep the map dirty after flush so a later sync
 still syncs

flush() only hands the data to the OS; clearing the dirty flag there made
the following sync_all/sync_data skip the file sync.
---
 src/filedb/inner/dbxxx.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f2ad853..8be404f 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1024,7 +1024,6 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             self.idx_file.flush()?;
             #[cfg(feature = "htx")]
             self.htx_file.flush()?;
-            self.dirty = false;
         }
         Ok(())
     }
-- 
2.43.0


From 1293599b4529d22bb3628d4d6c9c38b93f941335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 03/12] fix: flush the node cache when a map is closed

Dropping the last handle wrote the file buffers but not the dirty index
nodes, so a map closed without sync lost most of its entries.
---
 src/filedb/inner/dbxxx.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 8be404f..0605525 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -63,6 +63,13 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     }
 }
 
+// write back the cached nodes and buffers when the last handle goes away.
+impl<KT: DbMapKeyType> Drop for FileDbXxxInner<KT> {
+    fn drop(&mut self) {
+        let _ = DbXxxBase::flush(self);
+    }
+}
+
 // for utils
 impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     #[inline]
-- 
2.43.0


From 746ee887b28ac23c403623df339f9a9c4a9a52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 04/12] fix: apply duplicate keys of a bulk operation in the
 given order

The descending sort with pop() reversed equal keys: the first of two puts
won and the results of two deletes were swapped.
---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..2e36ee8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,8 +245,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1)?;
         }
         Ok(())
@@ -260,8 +260,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1.as_bytes())?;
         }
         Ok(())
@@ -298,8 +298,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
         }
-- 
2.43.0


From a0df17e5997a191bd7987da6763bc4da2199460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 05/12] fix: keep distinct non-utf8 string keys distinct in the
 memory db

The lossy utf-8 conversion merged different keys into one entry.
---
 src/memdb.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/memdb.rs b/src/memdb.rs
index 8cc85dd..3913036 100644
--- a/src/memdb.rs
+++ b/src/memdb.rs
@@ -246,7 +246,7 @@ impl<'a> MemoryDbInner<'a> {
 #[derive(Debug)]
 pub(crate) struct MemoryDbMapDbStringInner<'a> {
     parent: Option<MemoryDbNode<'a>>,
-    mem: BTreeMap<String, Vec<u8>>,
+    mem: BTreeMap<DbString, Vec<u8>>,
 }
 
 impl MemoryDbMapDbStringInner<'_> {
@@ -287,18 +287,15 @@ impl DbXxxBase for MemoryDbMapDbStringInner<'_> {
 
 impl DbXxxObjectSafe<DbString> for MemoryDbMapDbStringInner<'_> {
     fn get_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.get(&key_s).map(|val| val.to_vec());
+        let r = self.mem.get(key).cloned();
         Ok(r)
     }
     fn put_kt(&mut self, key: &DbString, value: &[u8]) -> Result<()> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let _ = self.mem.insert(key_s, value.to_vec());
+        let _ = self.mem.insert(key.clone(), value.to_vec());
         Ok(())
     }
     fn del_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.remove(&key_s);
+        let r = self.mem.remove(key);
         Ok(r)
     }
 }
-- 
2.43.0


From c251e5ff2248040dc3efdea4ed7c9b1a0c42fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 06/12] fix: iterating an empty map yields nothing instead of
 panicking

---
 src/filedb/inner/dbxxx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 0605525..a9bbf0a 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1201,7 +1201,10 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
         let depth_nodes = {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
-            let mut depth_nodes = vec![(top_node.clone(), 0, 0)];
+            let mut depth_nodes = Vec::new();
+            if !top_node.get_ref().keys_is_empty() {
+                depth_nodes.push((top_node.clone(), 0, 0));
+            }
             let mut node = top_node;
             //
             loop {
-- 
2.43.0


From 817466ac8b58a1d249e4ff087b2a34a8442d718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 07/12] fix: refuse to open one map name as two key types

The second handle worked on the same files through its own buffers and
caches, and both overwrote each other.
---
 src/filedb/inner/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/mod.rs b/src/filedb/inner/mod.rs
index 2c0c954..4f089b7 100644
--- a/src/filedb/inner/mod.rs
+++ b/src/filedb/inner/mod.rs
@@ -1,7 +1,7 @@
 use super::super::DbXxxBase;
 use super::{FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString, FileDbParams};
 use std::collections::BTreeMap;
-use std::io::Result;
+use std::io::{Error, ErrorKind, Result};
 use std::path::{Path, PathBuf};
 
 pub(crate) mod dbxxx;
@@ -125,17 +125,33 @@ impl FileDbInner {
 }
 
 impl FileDbInner {
+    /// the maps of every key type share the same files by the name.
+    fn check_unused_name(&self, name: &str) -> Result<()> {
+        if self.db_bytes_map.contains_key(name)
+            || self.db_int_map.contains_key(name)
+            || self.db_string_map.contains_key(name)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                format!("db map '{}' is already opened as another key type", name),
+            ));
+        }
+        Ok(())
+    }
     pub(super) fn create_db_map(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_unused_name(name)?;
         let child: FileDbMapDbString = FileDbMapDbString::open(self.path(), name, params)?;
         let _ = self.db_map_insert(name, child);
         Ok(())
     }
     pub(super) fn create_db_map_bytes(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_unused_name(name)?;
         let child: FileDbMapDbBytes = FileDbMapDbBytes::open(self.path(), name, params)?;
         let _ = self.db_map_bytes_insert(name, child);
         Ok(())
     }
     pub(super) fn create_db_map_dbint(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_unused_name(name)?;
         let child: FileDbMapDbInt = FileDbMapDbInt::open(self.path(), name, params)?;
         let _ = self.db_map_dbint_insert(name, child);
         Ok(())
-- 
2.43.0


From bb60023312767e59fe48b26a972c224765e7ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 08/12] fix: return an error for a key or value too long for
 its u32 length

The length was truncated to u32 while all the bytes were written over the
following pieces.
---
 src/filedb/inner/dbxxx.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index a9bbf0a..4f9a578 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -9,7 +9,7 @@ use std::borrow::Borrow;
 use std::cell::RefCell;
 use std::cmp::Ordering;
 use std::convert::TryInto;
-use std::io::Result;
+use std::io::{Error, ErrorKind, Result};
 use std::path::Path;
 use std::rc::Rc;
 
@@ -22,6 +22,9 @@ use rabuf::SmallRead;
 #[cfg(feature = "htx")]
 use super::htx;
 
+/// the piece size and the data length are recorded as `u32` in the file.
+const PIECE_DATA_LEN_MAX: usize = (u32::MAX - 1024) as usize;
+
 #[derive(Debug)]
 pub struct FileDbXxxInner<KT: DbMapKeyType> {
     dirty: bool,
@@ -1140,6 +1143,12 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        if key_kt.as_bytes().len() > PIECE_DATA_LEN_MAX || value.len() > PIECE_DATA_LEN_MAX {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "the key or the value is too long",
+            ));
+        }
         self.dirty = true;
         #[cfg(feature = "htx")]
         {
-- 
2.43.0


From b7fdd96a3ca6b69566947fe48c3e69d8b6870fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 09/12] fix: keep the real size of a recycled piece and never
 truncate at it

A large free piece is taken first-fit, but its smaller requested size was
recorded and the tail was lost; and a failed write of a recycled piece cut
the file at that piece, destroying everything behind it.
---
 src/filedb/inner/key.rs | 12 ++++++++----
 src/filedb/inner/val.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..5e8979d 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -430,11 +430,13 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let is_append = free_piece_offset.is_zero();
+            let (new_piece_offset, new_piece_size) = if !is_append {
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                let piece_size = self.0.read_piece_size()?;
+                (free_piece_offset, piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
@@ -443,7 +445,9 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    if is_append {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..587c42e 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -395,11 +395,13 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let is_append = free_piece_offset.is_zero();
+            let (new_piece_offset, new_piece_size) = if !is_append {
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                let piece_size = self.0.read_piece_size()?;
+                (free_piece_offset, piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
@@ -408,7 +410,9 @@ impl VarFileValueCache {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    if is_append {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
-- 
2.43.0


From 98896c27f76d1f95bae1ca65d77417c22d45a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 10/12] fix: small buffer sizes no longer recurse until the
 stack overflows

A buffer of zero or one chunk can never free a chunk, because the first one
is pinned.
---
 src/filedb/inner/vfile.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..dbb131f 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -38,6 +38,8 @@ impl VarFile {
         max_num_chunks: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the first chunk is pinned, one more is needed to work.
+        let max_num_chunks = max_num_chunks.max(2);
         Ok(Self {
             buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
             piece_mgr,
@@ -55,6 +57,12 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the smallest auto buffer is 32 KiB, it needs to have two chunks or more.
+        let chunk_size = if per_mille < 1000 {
+            chunk_size.min(16 * 1024)
+        } else {
+            chunk_size
+        };
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From 300b59b1d19df35fe0dc71a06785f9f6529194b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 11/12] fix: write keys and values larger than one buffer chunk
 without panicking

---
 src/filedb/inner/key.rs | 2 +-
 src/filedb/inner/val.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 5e8979d..c95d4a9 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -371,7 +371,7 @@ impl<KT: DbMapKeyType> KeyPiece<KT> {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_key_len(key_len)?;
-        file.write_all_small(key)?;
+        file.write_all(key)?;
         //
         #[cfg(any(feature = "htx", feature = "idx_straight"))]
         file.write_value_piece_offset(self.value_offset)?;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 587c42e..48d0255 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -342,7 +342,7 @@ impl ValuePiece {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_value_len(value_len)?;
-        file.write_all_small(value)?;
+        file.write_all(value)?;
         file.write_zero_to_offset(self.offset + self.size)?;
         //
         Ok(())
-- 
2.43.0


From 0872db7d33a4b2ad310bdef6d1521eef7a70c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 12/12] fix: a put into an empty map lost the place of the
 empty root node

Each time a map became empty and got an entry again, the node that the
new root replaced stayed behind in the index file, neither linked nor
on a free list: the file grew by 256 bytes for every such cycle.
---
 src/filedb/inner/dbxxx.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 4f9a578..c70f61c 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -364,11 +364,14 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         key_kt: &KT,
         value: &[u8],
     ) -> Result<IdxNode> {
+        if node_.get_ref().keys_is_empty() {
+            let new_node = self.keys_is_empty_on_insert_(key_kt, value)?;
+            // the new node takes the place of the empty one.
+            self.idx_file.delete_node(node_)?;
+            return Ok(new_node);
+        }
         let r = {
             let node = node_.get_ref();
-            if node.keys_is_empty() {
-                return self.keys_is_empty_on_insert_(key_kt, value);
-            }
             #[cfg(not(feature = "tr_has_short_key"))]
             let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
             #[cfg(feature = "tr_has_short_key")]
-- 
2.43.0

