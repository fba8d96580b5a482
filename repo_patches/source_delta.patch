From 35235a8f41e104f9231b48217dd58a2b2a7db3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 01/15] fix: read packed offset chunks at any address

The chunk table of a layer begins wherever the previous layer's bytes end, so casting
it to &[Chunk] with alignment 8 was undefined behaviour (and a panic in debug builds).
---
 src/slice_vector/offsets.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..38be48c 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// packed, since chunks are read in place from buffers where they can begin at any address
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,7 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        { self.deltas }.iter().take_while(|&&x| x != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From 7b092f915e32476d6bb522f6666cb3365b3e747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 02/15] fix: copy vectors loaded from an unaligned buffer

Casting the bytes to &[f32] in place is undefined behaviour (and a panic in debug builds)
when the buffer's data does not happen to be aligned.
---
 src/slice_vector/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..80522d7 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,6 +121,11 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
+        if buffer[U64_LEN..].as_ptr() as usize % ::std::mem::align_of::<T>() != 0 {
+            // the values cannot be borrowed from an unaligned buffer
+            return Self::from_unaligned_bytes(buffer);
+        }
+
         let (data, width) = Self::load_mmap(buffer);
 
         assert!(width > 0 && data.len() % width == 0);
@@ -129,6 +134,21 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     /// Returns an iterator over all slices in `self`.
+    fn from_unaligned_bytes(buffer: &[u8]) -> Self {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        let width = u64::from_le_bytes(buf) as usize;
+
+        let data: Vec<T> = buffer[U64_LEN..]
+            .chunks_exact(::std::mem::size_of::<T>())
+            .map(|value| unsafe { ::std::ptr::read_unaligned(value.as_ptr() as *const T) })
+            .collect();
+
+        assert!(width > 0 && data.len() % width == 0);
+
+        Self::Memory(Cow::Owned(data), width)
+    }
+
     pub fn iter<'b>(self: &'b Self) -> impl Iterator<Item = &'b [T]>
     where
         'a: 'b,
-- 
2.43.0


From 03a332dc3b61e6ae726fb4989951e9ab4b9eea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 03/15] fix: count every byte written when writing vectors and
 embedding elements

The returned number of bytes left out the header (and the offsets of elements).
---
 src/slice_vector/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 80522d7..891e20e 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -482,7 +482,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
 
         buffer.write_all(&width.to_le_bytes())?;
 
-        io::write_as_bytes(&data[..], buffer)
+        Ok(U64_LEN + io::write_as_bytes(&data[..], buffer)?)
     }
 }
 
@@ -599,12 +599,14 @@ where
         for &offset in &offsets[begin..=end] {
             let offset = usize::try_from(offset).unwrap();
             let offset = Offset::try_from(offset - offset_begin).unwrap();
-            io::write_as_bytes(&[offset], buffer)?;
+            bytes_written += io::write_as_bytes(&[offset], buffer)?;
         }
 
         let data_begin = usize::try_from(offsets[begin]).unwrap();
         let data_end = usize::try_from(offsets[end]).unwrap();
-        io::write_as_bytes(&data[data_begin..data_end], buffer)
+        bytes_written += io::write_as_bytes(&data[data_begin..data_end], buffer)?;
+
+        Ok(bytes_written)
     }
 
     pub fn get(self: &Self, idx: usize) -> &[T] {
-- 
2.43.0


From 25bd5f3cc42979535a5c67851d29d06a77b5a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 04/15] fix: report errors of the last buffered bytes when
 saving

Dropping a BufWriter ignores errors, so a failing save could return Ok.
---
 src/elements/embeddings/parsing.rs | 4 ++++
 src/index/io.rs                    | 3 ++-
 src/index/rw/mod.rs                | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..2b2ad2c 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().unwrap();
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..72e64a8 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,7 +66,8 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
-    Ok(())
+    // errors are ignored if this is left to drop
+    buffer.flush()
 }
 
 pub(super) fn load_layers(buffer: &'_ [u8]) -> Layers<'_> {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..a6887e2 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From 438d822c61e3045f0800bfb3540fb4365b5cec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 05/15] fix: reorder indexes with less than two layers

Computing the order panicked for an empty index and an index with a single layer.
---
 src/index/reorder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..5b04247 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,6 +125,10 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() < 2 {
+            return (0..self.len()).collect();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
         let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
 
-- 
2.43.0


From d074d9f7298304144bf03058673fef2941f38c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 06/15] fix: search a concurrent builder that has only one
 layer

The search returned nothing as long as all elements were in the first layer.
---
 src/index/rw/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index a6887e2..38662e5 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -196,8 +196,9 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
+        if elements.len() > 0 {
+            let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+            super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
                 .into_iter()
                 .take(num_neighbors)
                 .map(|(i, d)| (i, d.into_inner()))
-- 
2.43.0


From 99f52fff08aea865005ee3c6883fe2e1e36fd204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 07/15] fix: do not hold the write lock while inserting the
 remaining elements

Acquiring it again in the recursive call deadlocks if another thread waits to write to disk.
---
 src/index/rw/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 38662e5..91c4eda 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -106,10 +106,10 @@ where
             return vec![];
         }
 
-        // signal that writes will happen
-        let _guard = self.write_lock.read();
-
         let (mut inserted, remaining) = {
+            // signal that writes will happen
+            let _guard = self.write_lock.read();
+
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
             let mut layers = self.layers.write();
-- 
2.43.0


From 80fc316c668f16d71735715e6100d4fa63c823ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 08/15] fix: check that a node is empty and initialize it under
 one lock

A node connected by another thread in between was overwritten (or failed an assertion).
---
 src/index/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..4995680 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,21 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    /// Sets neighbors for `node` if it is empty. Returns `false` if it is not.
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        // another thread might already have connected a node to this one
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From a52ed1c1100f2b9d58de2981d0067cb588ceedc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 09/15] fix: write empty shards when there are fewer elements
 than shards

The begin of a shard could lie behind the last element, which panicked.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 2b2ad2c..a015128 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From 8c01e11c863d895edbb29b59e8b0a93114e79669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 10/15] fix: load empty collections of vectors

A collection that never got any vector is written with width 0, which was refused when loaded.
---
 src/slice_vector/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 891e20e..ddb67b3 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(Self::is_valid(&data, width));
 
         Ok(slice_vec)
     }
@@ -128,12 +128,21 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
 
         let (data, width) = Self::load_mmap(buffer);
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(Self::is_valid(&data, width));
 
         Self::Memory(Cow::Borrowed(data), width)
     }
 
     /// Returns an iterator over all slices in `self`.
+    // only an empty vector can have an unknown width
+    fn is_valid(data: &[T], width: usize) -> bool {
+        if width > 0 {
+            data.len() % width == 0
+        } else {
+            data.is_empty()
+        }
+    }
+
     fn from_unaligned_bytes(buffer: &[u8]) -> Self {
         let mut buf = [0x0; U64_LEN];
         buf.copy_from_slice(&buffer[..U64_LEN]);
@@ -144,7 +153,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
             .map(|value| unsafe { ::std::ptr::read_unaligned(value.as_ptr() as *const T) })
             .collect();
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(Self::is_valid(&data, width));
 
         Self::Memory(Cow::Owned(data), width)
     }
-- 
2.43.0


From 8d140d318f6e20edf4d001158900106b5a01ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 11/15] fix: quantize zero vectors

Dividing by the largest magnitude gave NaN, which failed an assertion in debug builds.
---
 src/elements/angular_int.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..5df0e89 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -32,6 +32,10 @@ impl Vector<'static> {
             .max()
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
+        if *max_value == 0.0 {
+            return Self(Cow::from(vec![0; s.len()]));
+        }
+
         let mut v = Vec::with_capacity(s.len());
 
         for x in s {
-- 
2.43.0


From 81b994bf12825bf917112c919723c2c26f2605dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 12/15] fix: keep the documentation of iter in place

---
 src/slice_vector/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index ddb67b3..18124ba 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -133,7 +133,6 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         Self::Memory(Cow::Borrowed(data), width)
     }
 
-    /// Returns an iterator over all slices in `self`.
     // only an empty vector can have an unknown width
     fn is_valid(data: &[T], width: usize) -> bool {
         if width > 0 {
@@ -158,6 +157,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         Self::Memory(Cow::Owned(data), width)
     }
 
+    /// Returns an iterator over all slices in `self`.
     pub fn iter<'b>(self: &'b Self) -> impl Iterator<Item = &'b [T]>
     where
         'a: 'b,
-- 
2.43.0


From 4bf5d3fb6bd27408eba12c5cab6142041715b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 13/15] fix: halve num_neighbors on every upper layer when
 there are more elements than expected

With expected_num_elements below the real number of elements the layers
between the two sizes were built with the full num_neighbors although they
are not the bottom layer.
---
 src/index/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 4995680..6a91051 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -662,7 +662,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         let mut config = self.config;
 
         // if not last layer
-        if ideal_num_elements_in_layer < total_num_elements {
+        if ideal_num_elements_in_layer < cmp::max(total_num_elements, self.elements.len()) {
             // use half num_neighbors on upper layers
             config.num_neighbors = cmp::max(1, config.num_neighbors / 2);
         }
-- 
2.43.0


From 9f208c27139bc515660ac1eb67e1314d0d991863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:30 +0000
Subject: [PATCH 14/15] fix: read all members of a compressed elements file

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index a015128..7eabbc5 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -181,7 +181,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0


From 8f9a4d0a46645ea918de819cfec53ea560e635b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:18 +0000
Subject: [PATCH 15/15] fix: searching with a max_search far beyond the number
 of elements aborted

---
 src/index/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 6a91051..fbf94ce 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1006,6 +1006,9 @@ fn search_for_neighbors<Layer: Graph + ?Sized, Elements: ElementContainer>(
     goal: &Elements::Element,
     max_search: usize,
 ) -> Vec<(usize, NotNan<f32>)> {
+    // there is nothing to gain from more, but space is reserved for max_search elements
+    let max_search = cmp::min(max_search, layer.len());
+
     let mut res: max_size_heap::MaxSizeHeap<(NotNan<f32>, usize)> = max_size_heap::MaxSizeHeap::new(max_search); // TODO: should this really be max_search or num_neighbors?
     let mut pq: BinaryHeap<cmp::Reverse<_>> = BinaryHeap::new();
 
-- 
2.43.0

