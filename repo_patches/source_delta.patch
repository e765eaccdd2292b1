From e5244241e304d760a55ccd995394a036feea2400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 01/34] fix: compute the chunk grid extent with an exact
 ceiling division

u64_ceil_div rounded (a + 1) / b before adding the remainder, so shapes one
short of a multiple of the chunk shape got a grid one chunk too large, and the
largest shapes overflowed.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 29e9728afb83a9de8dc4f03b4852dd896fb49898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 02/34] fix: serialize raw data types without trailing NUL
 characters

The whole 32 byte scratch buffer was serialized instead of the characters
written to it, so metadata of raw arrays could not be read back.
---
 src/data_type.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..cb0a403 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -1,5 +1,3 @@
-use std::io::Write;
-
 use half::f16;
 use serde::{
     Deserialize,
@@ -155,10 +153,7 @@ impl Serialize for DataType {
                 size.serial_char().encode_utf8(&mut buf[2..3]);
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
-            Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
-            }
+            Raw { size } => return serializer.serialize_str(&format!("r{}", size)),
         };
         serializer.serialize_str(s)
     }
-- 
2.43.0


From b1d1265d9512c8fe36b09e7e30ca44189f608510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 03/34] fix: reject malformed data type strings instead of
 panicking

Three byte strings that are not a data type panicked in the deserializer, and
an explicit plus sign was accepted in the size of raw types.
---
 src/data_type.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index cb0a403..d830c5d 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -182,7 +182,7 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                 size: IntSize::B1,
                 endian: Endian::Little,
             },
-            dtype if dtype.starts_with('r') => {
+            dtype if dtype.starts_with('r') && !dtype.starts_with("r+") => {
                 if let Ok(size) = dtype[1..].parse::<usize>() {
                     if size % 8 == 0 {
                         DataType::Raw { size }
@@ -201,19 +201,33 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                 }
             }
             dtype if dtype.len() == 3 => {
+                let invalid =
+                    || serde::de::Error::invalid_value(serde::de::Unexpected::Str(value), &self);
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
-                    'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                let endian = chars
+                    .next()
+                    .and_then(Endian::deserial_char)
+                    .ok_or_else(invalid)?;
+                match chars.next() {
+                    Some('i') => {
+                        let size = chars
+                            .next()
+                            .and_then(IntSize::deserial_char)
+                            .ok_or_else(invalid)?;
                         DataType::Int { size, endian }
                     }
-                    'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                    Some('u') => {
+                        let size = chars
+                            .next()
+                            .and_then(IntSize::deserial_char)
+                            .ok_or_else(invalid)?;
                         DataType::UInt { size, endian }
                     }
-                    'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
+                    Some('f') => {
+                        let size = chars
+                            .next()
+                            .and_then(FloatSize::deserial_char)
+                            .ok_or_else(invalid)?;
                         DataType::Float { size, endian }
                     }
                     _ => {
-- 
2.43.0


From 7b147728cfad4bc0da9ebf0e326f00bb601125bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:52 +0000
Subject: [PATCH 04/34] fix: visit no chunks for empty regions in
 bounded_coord_iter

An empty extent that does not start on a chunk boundary was rounded to one
chunk, so empty and out-of-array regions visited chunks, even chunks outside
of the grid.
---
 src/ndarray.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..f0d5b07 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -416,7 +416,11 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            // An empty extent contains no chunks, wherever it lies.
+            .map(|((&o, &s), cs)| match s {
+                0 => o / cs,
+                _ => crate::u64_ceil_div(o + s, cs),
+            })
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
-- 
2.43.0


From ef5adf48d43dd843719bda6d55bd4f1d5f29bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 05/34] fix: keep coordinate iterators exact at the end and
 without dimensions

The remaining length underflowed once an iterator was exhausted, and the one
chunk of a zero dimensional array was never visited, so region reads and
writes of such arrays did nothing. The upper bound also overflowed for the
largest shapes.
---
 src/ndarray.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index f0d5b07..ae8adff 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -389,14 +389,7 @@ impl<T: HierarchyWriter> ZarrNdarrayWriter for T {}
 
 impl ArrayMetadata {
     pub fn coord_iter(&self) -> impl Iterator<Item = Vec<u64>> + ExactSizeIterator {
-        let coord_ceil = self
-            .get_shape()
-            .iter()
-            .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
-            .collect::<GridCoord>();
-
-        CoordIterator::new(&coord_ceil)
+        CoordIterator::new(&self.get_grid_extent())
     }
 
     pub fn bounded_coord_iter(
@@ -523,8 +516,13 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.accumulator == self.total_coords {
+            return None;
+        }
         self.accumulator += 1;
-        self.iter.next()
+        // Without dimensions there is one (empty) coordinate, which the
+        // cartesian product does not generate.
+        self.iter.next().or_else(|| Some(Vec::new()))
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 3d40174209506192bd8c8459d39c2190e0f89c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 06/34] fix: list the names of explicit nodes

list_nodes cut the length of the metadata suffix off twice, which mangled the
names of created arrays and groups or panicked, also took files that only end
like metadata keys for nodes, and did not pass a whole prefix to the store.
---
 src/storage.rs | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..c4c7b3d 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -310,33 +310,23 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
         // TODO: Inelegant.
 
-        let key_prefix = format!(
-            "{}/{}",
-            crate::META_ROOT_PATH,
-            crate::canonicalize_path(prefix_path)
-        );
+        // Prefixes of whole path components end with a slash.
+        let key_prefix = match crate::canonicalize_path(prefix_path) {
+            "" => format!("{}/", crate::META_ROOT_PATH),
+            path => format!("{}/{}/", crate::META_ROOT_PATH, path),
+        };
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
-        // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
-        keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
-        });
-        assert_eq!(
-            crate::ARRAY_METADATA_KEY_EXT.len(),
-            crate::GROUP_METADATA_KEY_EXT.len()
-        );
-
-        // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
+        // Find array and group metadata keys, and remove metadata extensions
+        // from keys to partially convert to node paths.
+        let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
+        let array_suffix = format!(".{}.{}", crate::ARRAY_METADATA_KEY_EXT, suffix);
+        let group_suffix = format!(".{}.{}", crate::GROUP_METADATA_KEY_EXT, suffix);
+        keys.retain(|k| k.ends_with(&array_suffix) || k.ends_with(&group_suffix));
+        assert_eq!(array_suffix.len(), group_suffix.len());
         keys.iter_mut()
-            .for_each(|k| k.truncate(k.len() - suffix_len));
+            .for_each(|k| k.truncate(k.len() - array_suffix.len()));
 
         // Add potential implicit groups.
         prefixes
-- 
2.43.0


From 1e825444c5d5867811597e2ed747e02bf27fc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 07/34] fix: separate listed names from their prefix and report
 listing errors

Names were appended to prefixes that do not end with a slash, so recursive
listing (list, list_prefix) failed or returned keys that do not exist. Errors
for single entries were dropped together with the entry, and prefixes without
any keys, such as those of empty groups, were errors.
---
 src/store/filesystem.rs | 44 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..dc51b37 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -190,6 +190,14 @@ impl FilesystemHierarchy {
     }
 }
 
+/// Whether an error means that there is no file at a path.
+fn is_absent(error: &Error) -> bool {
+    match error.kind() {
+        ErrorKind::NotFound | ErrorKind::NotADirectory => true,
+        _ => false,
+    }
+}
+
 impl ReadableStore for FilesystemHierarchy {
     type GetReader = BufReader<File>;
 
@@ -227,26 +235,34 @@ impl ListableStore for FilesystemHierarchy {
         let mut keys = vec![];
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
+        let separator = if prefix.is_empty() || prefix.ends_with('/') {
+            ""
+        } else {
+            "/"
+        };
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        let entries = match fs::read_dir(target) {
+            // There are no keys with this prefix.
+            Err(e) if is_absent(&e) => return Ok((keys, prefixes)),
+            entries => entries?,
+        };
 
-        for (key, t) in entries {
+        for entry in entries {
+            let entry = entry?;
+            let t = match fs::metadata(entry.path()) {
+                // Dangling symlinks, or removed since.
+                Err(e) if is_absent(&e) => continue,
+                metadata => metadata?.file_type(),
+            };
+            let name = entry.file_name().into_string().map_err(|_| {
+                Error::new(ErrorKind::InvalidData, "TODO: non-unicode path")
+            })?;
+            let key = format!("{}{}{}", prefix, separator, name);
             if t.is_file() {
                 keys.push(key);
             } else {
                 // t.is_dir() == true, because symlinks were followed.
-                prefixes.push(key);
+                prefixes.push(key + "/");
             }
         }
 
-- 
2.43.0


From e9fb64a51627f95ab3ee4a98eea2c53c882d89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 08/34] fix: reject keys that leave the hierarchy's directory
 at any point

Only the depth of the whole key was checked, so ../ at its start made up for
by later components (../other/x) reached files outside of the hierarchy.
---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index dc51b37..b34deba 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,17 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // Returning to the inside later does not make up for leaving.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From e9207b78c58c91209bf326233876bea429dbbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 09/34] fix: do not take a metadata document's own name for a
 node

exists() also looked for a key named like the node without any extension,
which is never a node but is, for foo.array.json, the document of node foo.
---
 src/storage.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index c4c7b3d..72e674c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -182,14 +182,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // TODO: should follow spec more closely by using `list_dir` for implicit groups.
         Ok(
             self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(
-                    self.group_metadata_key(path_name)
-                        .with_extension("")
-                        .with_extension("")
-                        .to_str()
-                        .expect("TODO"),
-                )?,
+                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?,
         )
     }
 
-- 
2.43.0


From d851bdacfe1d741224310ea39606f977693025b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 10/34] fix: remove the metadata of descendants together with a
 node

remove() computed the prefix of the descendants' metadata but never erased it,
so removed groups kept all of their arrays and groups, without their chunks.
---
 src/storage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 72e674c..eed4cfc 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -428,10 +428,12 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        // Remove the metadata of all descendants.
+        let metadata_prefix = std::path::Path::new(crate::META_ROOT_PATH)
+            .join(canonicalize_path(path_name));
+        self.erase_prefix(metadata_prefix.to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From ee04fb5d2c02dabcefff197bc5539b05dd539908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 11/34] fix: refuse unsuitable chunks before discarding the
 existing chunk

write_chunk checked the element type and count inside of the store's set call,
when the previous content of the chunk had already been truncated.
---
 src/chunk.rs   | 33 ++++++++++++++++++++++-----------
 src/storage.rs |  2 ++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..2230128 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,27 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// Check that a chunk can be written to an array.
+pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
+    array_meta: &ArrayMetadata,
+    chunk: &B,
+) -> Result<()> {
+    check_array_type::<T>(array_meta)?;
+
+    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            format!(
+                "Can not write chunk with too few elements. Expected {} given {}",
+                array_meta.get_chunk_num_elements(),
+                chunk.get_num_elements()
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -304,18 +325,8 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
-        check_array_type::<T>(array_meta)?;
+        check_chunk(array_meta, chunk)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                format!(
-                    "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
-                ),
-            ));
-        }
         let mut compressor = array_meta.compressor.encoder(buffer);
         chunk.write_data(&mut compressor, array_meta)?;
 
diff --git a/src/storage.rs b/src/storage.rs
index eed4cfc..0482776 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -446,6 +446,8 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
     ) -> Result<(), Error> {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
+        // Refuse the chunk before the store discards what it is to replace.
+        crate::chunk::check_chunk(array_meta, chunk)?;
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
         self.set(&chunk_key, |writer| {
             <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-- 
2.43.0


From 4ec147e74d3ebb5aaa8255fddcc7bc2b98a1bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 12/34] fix: report errors from writing the end of a chunk

Encoders write the end of their stream, and buffered writers their buffer,
when they are dropped, where errors are lost (or, with LZ4, panic). Chunks that
were not stored completely were reported as written.
---
 src/chunk.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 2230128..fffd2b0 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -322,15 +322,54 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     }
 }
 
+/// Wraps a writer to keep its first error, rather than to return it to an
+/// encoder, which can not report errors from being dropped.
+struct DeferErrors<W: Write> {
+    inner: W,
+    error: Option<Error>,
+}
+
+impl<W: Write> DeferErrors<W> {
+    /// Write out buffered data and return the first error.
+    fn finish(mut self) -> Result<()> {
+        match self.error {
+            Some(e) => Err(e),
+            None => self.inner.flush(),
+        }
+    }
+}
+
+impl<W: Write> Write for DeferErrors<W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        if self.error.is_none() {
+            self.error = self.inner.write_all(buf).err();
+        }
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        if self.error.is_none() {
+            self.error = self.inner.flush().err();
+        }
+        Ok(())
+    }
+}
+
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_chunk(array_meta, chunk)?;
 
-        let mut compressor = array_meta.compressor.encoder(buffer);
+        let mut buffer = DeferErrors {
+            inner: buffer,
+            error: None,
+        };
+        let mut compressor = array_meta.compressor.encoder(&mut buffer);
         chunk.write_data(&mut compressor, array_meta)?;
+        // Encoders write the end of their stream when they are dropped.
+        drop(compressor);
 
-        Ok(())
+        buffer.finish()
     }
 }
 
-- 
2.43.0


From 9d5da9a709010da180d1b68d7a7e1944e157ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 13/34] fix: report errors from writing buffered metadata

The buffered writer was dropped without flushing it, so documents that were
not stored were reported as written.
---
 src/storage.rs          | 15 +++++++++------
 src/store/filesystem.rs |  6 ++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 0482776..a1da362 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -373,8 +373,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &merged)?;
+                writer.flush()
             })?;
         }
         Ok(())
@@ -396,8 +397,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         } else if self.exists(metadata_key.to_str().expect("TODO"))? {
             Ok(())
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
+                writer.flush()
             })
         }
     }
@@ -418,8 +420,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, array_meta)?;
+                writer.flush()
             })
         }
     }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index b34deba..1127142 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::PathBuf;
 
@@ -97,8 +98,9 @@ impl FilesystemHierarchy {
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
 
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &metadata)?;
+            writer.flush()?;
             metadata
         };
 
-- 
2.43.0


From baaef977cc38c0414f39fba9b14ce3f7c04b5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 14/34] fix: do not take errors of the file system for absent
 keys

exists() and get() used Path::is_file, which is false for any error, so keys
that could not be looked up read as absent (and were overwritten as such).
---
 src/store/filesystem.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 1127142..33992cb 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -206,13 +206,20 @@ impl ReadableStore for FilesystemHierarchy {
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        match fs::metadata(target) {
+            Ok(metadata) => Ok(metadata.is_file()),
+            Err(e) if is_absent(&e) => Ok(false),
+            Err(e) => Err(e),
+        }
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
-            let file = File::open(target)?;
+        let file = match File::open(target) {
+            Err(e) if is_absent(&e) => return Ok(None),
+            file => file?,
+        };
+        if file.metadata()?.is_file() {
             file.lock_shared()?;
             Ok(Some(BufReader::new(file)))
         } else {
-- 
2.43.0


From d1ed9197b4354f0b506d5b1acfaadb936a776ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 15/34] fix: do not take errors of the file system for erased
 keys

erase() and erase_prefix() used Path::exists, which is false for any error, and
reported keys that could not be looked up as gone. Erasing a key failed when
another call erased it at the same time, and when it names a directory.
---
 src/store/filesystem.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 33992cb..e1ca0a4 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -308,10 +308,21 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
-            let file = File::open(&path)?;
-            file.lock_exclusive()?;
-            fs::remove_file(&path)?;
+        match File::open(&path) {
+            Ok(file) => {
+                // Directories are not keys.
+                if !file.metadata()?.is_file() {
+                    return Ok(true);
+                }
+                file.lock_exclusive()?;
+                match fs::remove_file(&path) {
+                    // Another call erased it while this one waited.
+                    Err(e) if is_absent(&e) => (),
+                    result => result?,
+                }
+            }
+            Err(e) if is_absent(&e) => (),
+            Err(e) => return Err(e),
         }
 
         Ok(!path.exists())
@@ -320,7 +331,11 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
+        let exists = match fs::metadata(&path) {
+            Err(e) if is_absent(&e) => false,
+            metadata => metadata.map(|_| true)?,
+        };
+        if exists {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
-- 
2.43.0


From 805858e7c7fb22340adff7de4e0431e6df90e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:23 +0000
Subject: [PATCH 16/34] fix: do not overwrite an entry point that can not be
 looked up

open_or_create used Path::exists, which is false for any error, and then
wrote the default entry point over the existing one.
---
 src/store/filesystem.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index e1ca0a4..3666a0b 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -86,7 +86,11 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
+        let exists = match fs::metadata(&entry_point_path) {
+            Err(e) if is_absent(&e) => false,
+            metadata => metadata.map(|_| true)?,
+        };
+        let entry_point_metadata = if exists {
             Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
-- 
2.43.0


From 7201c2bec324f0f12f2287981af3867c643cd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 17/34] fix: decode the fill values of floating point types

The strings NaN, Infinity and -Infinity were rejected, fill values of 16 bit
floats were taken for their bit pattern, and values too large for the type
became infinite.
---
 src/lib.rs | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..005ee89 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -341,6 +341,44 @@ fn u64_ceil_div(a: u64, b: u64) -> u64 {
     a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
+/// Decode the fill value of a floating point type, which has strings for the
+/// values that JSON numbers lack.
+fn float_fill_value<T: ReflectedType>(value: &Value, size: FloatSize) -> Result<T, Error> {
+    use half::f16;
+    use serde::de::{
+        value::Error as ValueError,
+        IntoDeserializer,
+    };
+    use std::f64::{
+        INFINITY,
+        NAN,
+    };
+
+    let invalid = || MetadataError::UnexpectedType(value.clone());
+    let float = match value.as_str() {
+        Some("NaN") => NAN,
+        Some("Infinity") => INFINITY,
+        Some("-Infinity") => -INFINITY,
+        _ => value.as_f64().ok_or_else(invalid)?,
+    };
+
+    let overflows = match size {
+        FloatSize::B2 => f16::from_f64(float).is_infinite(),
+        FloatSize::B4 => (float as f32).is_infinite(),
+        FloatSize::B8 => false,
+    };
+    if overflows && float.is_finite() {
+        return Err(invalid().into());
+    }
+
+    match size {
+        // `f16` is deserialized from its bits.
+        FloatSize::B2 => Ok(serde_json::from_value(f16::from_f64(float).to_bits().into())?),
+        _ => T::deserialize(float.into_deserializer())
+            .map_err(|e: ValueError| Error::new(std::io::ErrorKind::InvalidData, e)),
+    }
+}
+
 /// Metadata for groups.
 #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
 pub struct GroupMetadata {
@@ -446,11 +484,11 @@ impl ArrayMetadata {
     }
 
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
-        Ok(self
-            .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
-            .transpose()?
-            .unwrap_or_else(T::default))
+        match (self.get_fill_value(), T::ZARR_TYPE) {
+            (None, _) => Ok(T::default()),
+            (Some(v), DataType::Float { size, .. }) => float_fill_value(v, size),
+            (Some(v), _) => Ok(serde_json::from_value(v.clone())?),
+        }
     }
 
     pub fn get_data_type(&self) -> &ExtensibleDataType {
-- 
2.43.0


From 03dc62af05c33bbb58d4815870accba0b7a4fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:19 +0000
Subject: [PATCH 18/34] fix: report extended data types without a fallback as
 an error

Reading or writing a chunk of such an array panicked.
---
 src/data_type.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index d830c5d..6423d91 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -313,7 +313,9 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            Extended { type_string, .. } => Err(MetadataError::UnexpectedType(
+                type_string.as_str().into(),
+            )),
         }
     }
 }
-- 
2.43.0


From 089ee05d6530e98a07ef6301453bdfe6436b2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 19/34] fix: use default settings for out of range bzip2 block
 sizes and xz presets

---
 src/compression/bzip.rs | 16 ++++++++++++----
 src/compression/xz.rs   | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..c538f44 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -24,6 +24,17 @@ fn default_bzip_block_size() -> u8 {
     9
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9].
+    fn get_effective_block_size(&self) -> BzCompression {
+        if self.block_size < 1 || self.block_size > 9 {
+            BzCompression::new(u32::from(default_bzip_block_size()))
+        } else {
+            BzCompression::new(u32::from(self.block_size))
+        }
+    }
+}
+
 impl Default for Bzip2Compression {
     fn default() -> Bzip2Compression {
         Bzip2Compression {
@@ -38,10 +49,7 @@ impl Compression for Bzip2Compression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        Box::new(BzEncoder::new(
-            w,
-            BzCompression::new(u32::from(self.block_size)),
-        ))
+        Box::new(BzEncoder::new(w, self.get_effective_block_size()))
     }
 }
 
diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..daedeaa 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -23,6 +23,19 @@ fn default_xz_preset() -> i32 {
     6
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured preset, apart from the flag
+    /// for its extreme variant, is not in [0, 9].
+    fn get_effective_preset(&self) -> u32 {
+        let preset = self.preset as u32;
+        if preset & 0x7fff_ffff <= 9 {
+            preset
+        } else {
+            default_xz_preset() as u32
+        }
+    }
+}
+
 impl Default for XzCompression {
     fn default() -> XzCompression {
         XzCompression {
@@ -37,8 +50,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0


From 412cd08eb70f7f3762b1eb0b4a57afbc7376ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 20/34] fix: check the end of compressed chunks when reading

---
 src/chunk.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index fffd2b0..0003438 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -286,6 +286,13 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
     Ok(())
 }
 
+/// Read the remaining data of a decoder, so that it checks the end of its
+/// stream.
+fn finish_decoder<R: Read>(mut decoder: R) -> Result<()> {
+    std::io::copy(&mut decoder, &mut std::io::sink())?;
+    Ok(())
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -302,6 +309,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
             T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
+        finish_decoder(decompressed)?;
 
         Ok(chunk)
     }
@@ -317,6 +325,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
         chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
+        finish_decoder(decompressed)?;
 
         Ok(())
     }
-- 
2.43.0


From d41bbcfe49abcfb6e49fa6e45d5de04a134c3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 21/34] fix: reject array metadata with an invalid or
 unsupported chunk grid

---
 src/lib.rs     | 16 ++++++++++++++++
 src/storage.rs |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 005ee89..dbb8a19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,6 +467,22 @@ impl ArrayMetadata {
         }
     }
 
+    /// Check that metadata from a store has a chunk grid which is supported and
+    /// covers the array.
+    pub(crate) fn check_chunk_grid(&self) -> Result<(), Error> {
+        if self.chunk_grid.grid_type == REGULAR_GRID_TYPE
+            && self.chunk_grid.chunk_shape.len() == self.shape.len()
+            && self.chunk_grid.chunk_shape.iter().all(|&d| d != 0)
+        {
+            Ok(())
+        } else {
+            Err(Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Array metadata has an unsupported or invalid chunk grid",
+            ))
+        }
+    }
+
     pub fn get_shape(&self) -> &[u64] {
         &self.shape
     }
diff --git a/src/storage.rs b/src/storage.rs
index a1da362..da203f3 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -167,6 +167,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         let value_reader = ReadableStore::get(self, &array_path.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
+        metadata.check_chunk_grid()?;
         // TODO: erring immediately when encountering unknown extensions, while
         // it may be more appropriate to do so only when doing chunk IO.
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
-- 
2.43.0


From da0ecde2d5f0683a837fe1643112b9fec43e7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 22/34] fix: do not replace malformed attributes when setting
 attributes

---
 src/storage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index da203f3..337fc96 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -128,16 +128,15 @@ pub fn get_chunk_key(base_path: &str, array_meta: &ArrayMetadata, grid_position:
 
 const ATTRIBUTES_NAME: &str = "attributes";
 
-fn merge_top_level(a: &mut Value, b: JsonObject) {
+fn merge_top_level(a: &mut Value, b: JsonObject) -> Result<(), Error> {
     match a {
         &mut Value::Object(ref mut a) => {
             for (k, v) in b {
                 a.insert(k, v);
             }
+            Ok(())
         }
-        a => {
-            *a = b.into();
-        }
+        a => Err(MetadataError::UnexpectedType(a.clone()).into()),
     }
 }
 
@@ -368,7 +367,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: determine whether attribute merging is still necessary for zarr
         let mut merged = existing.clone();
         match merged.get_mut(ATTRIBUTES_NAME) {
-            Some(merged_attr) => merge_top_level(merged_attr, attributes),
+            Some(merged_attr) => merge_top_level(merged_attr, attributes)?,
             None => {
                 merged.insert(ATTRIBUTES_NAME.into(), Value::Object(attributes));
             }
-- 
2.43.0


From 996d57430213d8b4ae888ec685ca2c42bfcf3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 23/34] fix: report array metadata that can not be read instead
 of a missing array

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index dbb8a19..26677fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,7 +227,14 @@ pub trait HierarchyReader: Hierarchy {
 
     /// Test whether an array exists.
     fn array_exists(&self, path_name: &str) -> Result<bool, Error> {
-        Ok(self.exists(path_name)? && self.get_array_metadata(path_name).is_ok())
+        if !self.exists(path_name)? {
+            return Ok(false);
+        }
+        match self.get_array_metadata(path_name) {
+            Ok(_) => Ok(true),
+            Err(ref e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
+        }
     }
 
     /// Get a URI string for a data chunk.
-- 
2.43.0


From 04dd23bd5df03a0b3cf65162e1bc8d76f68e2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 24/34] fix: compress whole chunks with pure Rust LZ4 and
 report its errors

---
 src/compression/lz_pure.rs | 68 ++++++++++++++++++++++++++++++++------
 src/compression/mod.rs     |  2 +-
 2 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..fcae096 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -6,6 +8,7 @@ use std::io::{
 
 use lz_fear::framed::{
     CompressionSettings,
+    LZ4FrameIoReader,
     LZ4FrameReader,
 };
 use serde::{
@@ -15,20 +18,50 @@ use serde::{
 
 use super::Compression;
 
+/// Compresses everything written to it as one frame on drop, because
+/// `CompressionSettings` can only compress a whole frame at once.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    data: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.data.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
-        self.writer.flush()
+        Ok(())
+    }
+}
+
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        // As for the other encoders, errors of the writer are lost on drop.
+        let _ = self.settings.compress(&self.data[..], &mut self.writer);
+    }
+}
+
+/// Reads the frame header with the first data, so that errors can be returned.
+enum FrameReader<R: Read> {
+    New(Option<R>),
+    Opened(LZ4FrameIoReader<'static, R>),
+}
+
+impl<R: Read> Read for FrameReader<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
+        if let FrameReader::New(reader) = self {
+            let reader = reader
+                .take()
+                .ok_or_else(|| Error::from(ErrorKind::InvalidData))?;
+            *self = FrameReader::Opened(LZ4FrameReader::new(reader)?.into_read());
+        }
+        match self {
+            FrameReader::Opened(reader) => reader.read(buffer),
+            FrameReader::New(_) => unreachable!(),
+        }
     }
 }
 
@@ -39,6 +72,19 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// Only some block sizes exist, so choose the smallest larger size.
+    fn get_effective_block_size(&self) -> usize {
+        const KB: i32 = 1024;
+        match self.block_size {
+            s if s <= 64 * KB => 64 * 1024,
+            s if s <= 256 * KB => 256 * 1024,
+            s if s <= 1024 * KB => 1024 * 1024,
+            _ => 4 * 1024 * 1024,
+        }
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -53,19 +99,19 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        Box::new(FrameReader::New(Some(r)))
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            data: Vec::new(),
+        })
     }
 }
 
diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0


From a5bbfe629320574f93c25b48190ccc11eda2d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 25/34] fix: refuse entry points whose format URI has no
 version

---
 src/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 337fc96..19ab6ff 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -147,6 +147,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             .zarr_format
             .rsplit('/')
             .next()
+            // An empty requirement would match every version.
+            .filter(|vers_str| !vers_str.trim().is_empty())
             .ok_or_else(|| {
                 Error::new(
                     ErrorKind::InvalidData,
-- 
2.43.0


From e23b1f4e2115dbf8286789dc57541379ec8282d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 26/34] fix: refuse to list the attributes of a document that
 is not an object

---
 src/storage.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 19ab6ff..745e49c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -288,11 +288,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // For now return an error.
         let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
-        let mut value: serde_json::Value = serde_json::from_reader(value_reader)?;
-        let attrs = match value
-            .as_object_mut()
-            .and_then(|o| o.remove(ATTRIBUTES_NAME))
-        {
+        let mut document: JsonObject = serde_json::from_reader(value_reader)?;
+        let attrs = match document.remove(ATTRIBUTES_NAME) {
             Some(Value::Object(map)) => map,
             Some(v) => return Err(MetadataError::UnexpectedType(v).into()),
             _ => JsonObject::new(),
-- 
2.43.0


From 3db1dddda77eb672c2d1ac48c57dd472cae5cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 27/34] fix: do not erase a file in place of a prefix

---
 src/store/filesystem.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 3666a0b..7a4d056 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -335,11 +335,12 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        let exists = match fs::metadata(&path) {
+        // Files are keys, and not prefixes of other keys.
+        let is_dir = match fs::metadata(&path) {
             Err(e) if is_absent(&e) => false,
-            metadata => metadata.map(|_| true)?,
+            metadata => metadata?.is_dir(),
         };
-        if exists {
+        if is_dir {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
@@ -353,7 +354,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.exists())
+        Ok(!path.is_dir())
     }
 }
 
-- 
2.43.0


From f6d69b2acd56ffd037b2ecd4767a18cd75eb0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 28/34] fix: do not look at siblings of the hierarchy's
 directory

---
 src/store/filesystem.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 7a4d056..f9e290b 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -131,10 +131,10 @@ impl FilesystemHierarchy {
             let reader = BufReader::new(file);
             Ok(serde_json::from_reader(reader)?)
         } else {
-            let mut path = path;
             // TODO
-            path.set_extension("");
-            path.set_extension("");
+            // Only the key has extensions to remove, not the base path.
+            let node_key = PathBuf::from(key).with_extension("").with_extension("");
+            let path = self.get_path(node_key.to_str().expect("TODO"))?;
             // Check for implicit group.
             if path.exists() && path.is_file() {
                 Ok(json!({}))
-- 
2.43.0


From f78595b423b524bab1f099353bab1877322e62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 29/34] fix: refuse entry points whose metadata key suffix has
 a path separator

---
 src/store/filesystem.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index f9e290b..6154b47 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -57,6 +57,12 @@ impl FilesystemHierarchy {
             // way around.
             return Err(MetadataError::UnknownRequiredExtension(ext.clone()).into());
         }
+        if metadata.metadata_key_suffix.contains(std::path::is_separator) {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Entry point metadata key suffix contains a path separator",
+            ));
+        }
         Ok(metadata)
     }
 
-- 
2.43.0


From 3297ef35a85f1f9495e55aa71862f968d1090f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 30/34] fix: report system errors of get_attributes instead of
 absence

---
 src/store/filesystem.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 6154b47..a18374b 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -131,7 +131,7 @@ impl FilesystemHierarchy {
     pub fn get_attributes(&self, key: &str) -> Result<Value> {
         // TODO: no longer used, but should be adapted for getting array/group user attributes
         let path = self.get_path(key)?;
-        if path.exists() && path.is_file() {
+        if ReadableStore::exists(self, key)? {
             let file = File::open(path)?;
             file.lock_shared()?;
             let reader = BufReader::new(file);
@@ -140,9 +140,8 @@ impl FilesystemHierarchy {
             // TODO
             // Only the key has extensions to remove, not the base path.
             let node_key = PathBuf::from(key).with_extension("").with_extension("");
-            let path = self.get_path(node_key.to_str().expect("TODO"))?;
             // Check for implicit group.
-            if path.exists() && path.is_file() {
+            if ReadableStore::exists(self, node_key.to_str().expect("TODO"))? {
                 Ok(json!({}))
             } else {
                 Err(Error::new(ErrorKind::NotFound, "Path does not exist"))
-- 
2.43.0


From 3c8962e7ad7418c0b069dfb43ef9e425de696d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 31/34] fix: report incomplete LZ4 frames

---
 src/compression/lz.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz.rs b/src/compression/lz.rs
index e327c09..1071b19 100644
--- a/src/compression/lz.rs
+++ b/src/compression/lz.rs
@@ -1,4 +1,5 @@
 use std::io::{
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -42,6 +43,28 @@ impl<W: Write> Drop for Wrapper<W> {
     }
 }
 
+/// Reports the end of the data before the end of the frame as an error, which
+/// the `lz4` decoder only does when it is finished.
+struct FrameReader<R: Read> {
+    s: Option<Decoder<R>>,
+}
+
+impl<R: Read> Read for FrameReader<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
+        let n = match self.s.as_mut() {
+            Some(s) => s.read(buffer)?,
+            None => return Ok(0),
+        };
+        if n == 0 && !buffer.is_empty() {
+            if let Some(s) = self.s.take() {
+                s.finish().1.map_err(|_| ErrorKind::UnexpectedEof)?;
+            }
+        }
+
+        Ok(n)
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -79,7 +102,8 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(Decoder::new(r).expect("TODO: LZ4 returns a result here"))
+        let decoder = Decoder::new(r).expect("TODO: LZ4 returns a result here");
+        Box::new(FrameReader { s: Some(decoder) })
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From e204627f1f84cfde2aa913c516e7b30d323180f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:07 +0000
Subject: [PATCH 32/34] fix: refuse to read chunks with more elements than can
 be counted

---
 src/chunk.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 0003438..7311007 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::io::{
     Error,
     ErrorKind,
@@ -286,6 +287,16 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
     Ok(())
 }
 
+/// The number of elements of the chunks of an array, if a chunk can hold them.
+fn get_chunk_len(array_meta: &ArrayMetadata) -> Result<u32> {
+    u32::try_from(array_meta.get_chunk_num_elements()).map_err(|_| {
+        Error::new(
+            ErrorKind::InvalidData,
+            "Chunks of this array have too many elements to be read.",
+        )
+    })
+}
+
 /// Read the remaining data of a decoder, so that it checks the end of its
 /// stream.
 fn finish_decoder<R: Read>(mut decoder: R) -> Result<()> {
@@ -305,8 +316,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     {
         check_array_type::<T>(array_meta)?;
 
-        let mut chunk =
-            T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        let mut chunk = T::create_data_chunk(&grid_position, get_chunk_len(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
         finish_decoder(decompressed)?;
@@ -322,7 +332,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     ) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
-        chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        chunk.reinitialize(&grid_position, get_chunk_len(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
         finish_decoder(decompressed)?;
-- 
2.43.0


From 26364903c4637dcdf9fcba36481c4de98df3908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:25 +0000
Subject: [PATCH 33/34] fix: compare the whole number of elements when a chunk
 is written

get_num_elements counts in 32 bits, so a chunk with 2^32 elements too many was
accepted and stored.
---
 src/chunk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 7311007..bae8ae2 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -273,13 +273,13 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
 ) -> Result<()> {
     check_array_type::<T>(array_meta)?;
 
-    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+    if chunk.get_data().len() != array_meta.get_chunk_num_elements() {
         return Err(Error::new(
             ErrorKind::InvalidData,
             format!(
                 "Can not write chunk with too few elements. Expected {} given {}",
                 array_meta.get_chunk_num_elements(),
-                chunk.get_num_elements()
+                chunk.get_data().len()
             ),
         ));
     }
-- 
2.43.0


From 65ca8aafbc796506a3abe8c8c9d68e0aee78bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:37 +0000
Subject: [PATCH 34/34] fix: do not overflow when counting the elements of a
 chunk

A chunk shape with more than usize::MAX elements made reading and writing
panic, or, without overflow checks, take the number of elements modulo 2^64.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 26677fa..d72ed4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -532,12 +532,13 @@ impl ArrayMetadata {
     }
 
     /// Get the total number of elements possible in a chunk.
+    ///
+    /// This is `usize::MAX` if there are more than can be counted.
     pub fn get_chunk_num_elements(&self) -> usize {
         self.chunk_grid
             .chunk_shape
             .iter()
-            .map(|&d| d as usize)
-            .product()
+            .fold(1, |n: usize, &d| n.saturating_mul(d as usize))
     }
 
     /// Get the upper bound extent of grid coordinates.
-- 
2.43.0

