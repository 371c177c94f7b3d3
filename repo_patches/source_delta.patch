From b413387c376e804e0cc3dc8113cd96c731e83052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 01/17] fix: OrdTreeMap::delete must not remove a neighbour of
 an absent key

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..7d3f04e 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From 989e015a50b30caafd85f09ffeb9c452477b20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 02/17] fix: Rope::clear must forget the remembered edit cursor

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..ccc91bd 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -241,6 +241,7 @@ impl Rope {
 
     pub fn clear(&mut self) {
         self.tree.clear();
+        self.cursor = None;
     }
 
     #[allow(unused)]
-- 
2.43.0


From 38ccd3c82e47cd4789ad18cebc7e1fc114131e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 03/17] fix: bulk insertion into an empty tree indexed unfilled
 children and left the root cache stale

---
 src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..96f5384 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -716,6 +716,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -754,7 +755,7 @@ impl<B: BTreeTrait> BTree<B> {
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
         let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM - 2).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -763,7 +764,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -780,13 +781,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
             let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM - 2).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -800,10 +801,11 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
+                    let slot = Child {
                         arena: ArenaIndex::Internal(child_idx),
                         cache,
                     };
+                    parent.children.push(slot).unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From 4f61a27673f6d4109a0346129e8255123c46bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 04/17] fix: bulk insertion merged into the element before the
 target instead of the target itself

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 96f5384..fc73890 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -597,7 +597,9 @@ impl<B: BTreeTrait> BTree<B> {
             .iter()
             .position(|x| x.arena.unwrap() == pos.leaf.0)
             .unwrap();
-        let left_neighbour = if leaf_slot == 0 {
+        let left_neighbour = if pos.offset != 0 {
+            Some(pos.leaf)
+        } else if leaf_slot == 0 {
             None
         } else {
             Some(parent.children[leaf_slot - 1].arena.unwrap().into())
@@ -741,7 +743,8 @@ impl<B: BTreeTrait> BTree<B> {
             inserted = i;
         }
 
-        let mut pos = new_pos.unwrap_or(cursor);
+        // the left neighbour may have grown, so the end of the tree must be looked up again
+        let mut pos = new_pos.or_else(|| self.end_cursor()).unwrap();
         // TODO: PERF this can be optimized further
         for item in data.drain(inserted..).rev() {
             let (p, _) = self.insert_by_path(pos, item);
-- 
2.43.0


From de71dfbe58066282c9da525aeb2a78db909ec491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 05/17] fix: merging adjacent elements of a batch reordered the
 elements after a second merge

---
 src/lib.rs | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc73890..009b7a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2738,28 +2738,14 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    let mut merged: Vec<E> = Vec::with_capacity(data.len());
+    for elem in data.drain(..) {
+        match merged.last_mut() {
+            Some(last) if last.can_merge(&elem) => last.merge_right(&elem),
+            _ => merged.push(elem),
         }
-        i += 1;
-    }
-
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
     }
+    *data = merged;
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From b8172597589baaac118ff478448b2553fb42f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 06/17] fix: prepend to an empty tree did not update the root
 cache

---
 src/lib.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 009b7a8..6212352 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2526,15 +2526,7 @@ impl<B: BTreeTrait> BTree<B> {
 
     pub fn prepend(&mut self, elem: B::Elem) -> Cursor {
         let Some(leaf_idx) = self.first_leaf() else {
-            let parent_idx = self.root;
-            let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
-            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
-            let ans = data.arena;
-            parent.children.push(data).unwrap();
-            return Cursor {
-                leaf: ans.unwrap().into(),
-                offset: 0,
-            };
+            return self.push(elem);
         };
         let leaf = self.leaf_nodes.get_mut(leaf_idx.0).unwrap();
         let parent_idx = leaf.parent();
-- 
2.43.0


From e55ced96fa47647acb8ed311540d1ac8d5782722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 07/17] fix: dropping the drain of an empty range at the end of
 the tree or of an empty tree panicked

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..d854dca 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        let Some(store) = self.store.take() else {
+            // nothing was drained
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From 9a7cbc349dcf09427cff5000042e375147eeefe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 08/17] fix: drain ending before a zero-length element left
 stale caches

---
 src/iter.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index d854dca..261d7d5 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -57,19 +57,8 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
                 Some(node_idx)
             }
         };
-        let leaf_after_drain_range = {
-            let node_idx = end_path.last().unwrap().arena;
-            if let Some(end) = end_result {
-                let len = tree.leaf_nodes.get(end.leaf.0).unwrap().elem.rle_len();
-                if len == end.offset {
-                    tree.next_same_level_in_node(node_idx)
-                } else {
-                    Some(node_idx)
-                }
-            } else {
-                None
-            }
-        };
+        // the end leaf itself is never drained, even if its length is zero
+        let leaf_after_drain_range = end_result.map(|_| end_path.last().unwrap().arena);
         Self {
             current_path: tree.get_path(start_result.leaf.into()),
             tree,
-- 
2.43.0


From 399500ade584722de07d0ecf7e627ca17ffd7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 09/17] fix: advancing an end-of-element cursor lost one unit
 at a node border

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6212352..1fa93bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -841,7 +841,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From 851ab833cce06a96ae4e344a911c9a6527c176f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 10/17] fix: iter_range over an empty tree panicked

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1fa93bb..0846cdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1725,16 +1725,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        // an empty tree has neither cursor
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From c63379026c90b5f0661a537ba73cb6e50fe59350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 11/17] fix: depth of an empty tree panicked

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0846cdc..c507bf4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2712,7 +2712,10 @@ impl<B: BTreeTrait> BTree<B> {
         let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
         loop {
             depth += 1;
-            index = node.children.first().unwrap().arena;
+            let Some(first) = node.children.first() else {
+                return depth;
+            };
+            index = first.arena;
             match index {
                 ArenaIndex::Leaf(_) => return depth,
                 ArenaIndex::Internal(index) => {
-- 
2.43.0


From 754152778556bc15d94eb194e6665b7463e0ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 12/17] fix: update_leaves_with_arg_in_ranges applied empty
 ranges to uncovered content or panicked

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c507bf4..04e7812 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1415,7 +1415,11 @@ impl<B: BTreeTrait> BTree<B> {
             let len = leaf_node.elem().rle_len();
             let mut split_at = BTreeSet::new();
             // PERF we can avoid this alloc and `group_by`
-            let group: Vec<_> = group.into_iter().collect();
+            let group: Vec<_> = group
+                .into_iter()
+                // an empty range covers nothing
+                .filter(|(_, range, _)| len == 0 || !range.is_empty())
+                .collect();
             for (_, range, _) in group.iter() {
                 split_at.insert(range.start);
                 split_at.insert(range.end);
-- 
2.43.0


From 85803a2766073bb86bfa0c6c7f8c6176418c5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 13/17] fix: drop the import the drain fix left unused

---
 src/iter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 261d7d5..e0c49bc 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,6 +1,5 @@
 use crate::{
-    delete_range, rle::HasLength, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
-    QueryResult,
+    delete_range, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath, QueryResult,
 };
 
 /// iterate node (not element) from the start path to the **inclusive** end path
-- 
2.43.0


From 3f33488f06d1faf157bac658c7f8c26c71d87cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 14/17] verification hooks: small constants and gap buffer
 access under --cfg generic_btree_verif

---
 src/generic_impl/gap_buffer.rs | 87 +++++++++++++++++++++++++++++++++-
 src/generic_impl/mod.rs        |  2 +
 src/lib.rs                     |  6 +++
 3 files changed, 93 insertions(+), 2 deletions(-)

diff --git a/src/generic_impl/gap_buffer.rs b/src/generic_impl/gap_buffer.rs
index b9ce6f0..cded499 100644
--- a/src/generic_impl/gap_buffer.rs
+++ b/src/generic_impl/gap_buffer.rs
@@ -2,9 +2,9 @@ use std::ops::{Range, RangeBounds};
 
 use crate::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
 
-#[cfg(not(test))]
+#[cfg(not(any(test, generic_btree_verif)))]
 pub const MAX_STRING_SIZE: usize = 128;
-#[cfg(test)]
+#[cfg(any(test, generic_btree_verif))]
 pub const MAX_STRING_SIZE: usize = 12;
 
 #[derive(Debug, Clone)]
@@ -255,6 +255,89 @@ impl CanRemove for GapBuffer {
     }
 }
 
+/// Gives verification builds access to the gap buffer
+#[cfg(generic_btree_verif_gap)]
+#[derive(Debug, Clone)]
+pub struct VerifGap(GapBuffer);
+
+#[cfg(generic_btree_verif_gap)]
+impl VerifGap {
+    pub fn empty() -> Self {
+        Self(GapBuffer::new())
+    }
+
+    pub fn max_len() -> usize {
+        MAX_STRING_SIZE
+    }
+
+    pub fn insert(&mut self, index: usize, bytes: &[u8]) -> bool {
+        self.0.insert_bytes(index, bytes).is_ok()
+    }
+
+    pub fn insert_pair(&mut self, index: usize, left: &[u8], right: &[u8]) -> bool {
+        self.0.insert_bytes_pair(index, (left, right)).is_ok()
+    }
+
+    pub fn delete(&mut self, range: impl RangeBounds<usize>) {
+        self.0.delete(range)
+    }
+
+    pub fn move_gap(&mut self, index: usize) {
+        self.0.shift_at(index)
+    }
+
+    pub fn bytes(&self) -> Vec<u8> {
+        let (left, right) = self.0.as_bytes();
+        [left, right].concat()
+    }
+
+    pub fn length(&self) -> usize {
+        self.0.rle_len()
+    }
+
+    pub fn slice(&self, range: impl RangeBounds<usize>) -> Self {
+        Self(self.0.slice(range))
+    }
+
+    pub fn slice_in_place(&mut self, range: impl RangeBounds<usize>) {
+        self.0.slice_(range)
+    }
+
+    pub fn split(&mut self, pos: usize) -> Self {
+        Self(self.0.split(pos))
+    }
+
+    pub fn can_merge(&self, right: &Self) -> bool {
+        self.0.can_merge(&right.0)
+    }
+
+    pub fn merge_right(&mut self, right: &Self) {
+        self.0.merge_right(&right.0)
+    }
+
+    pub fn merge_left(&mut self, left: &Self) {
+        self.0.merge_left(&left.0)
+    }
+
+    pub fn try_insert(&mut self, pos: usize, elem: Self) -> bool {
+        self.0.try_insert(pos, elem.0).is_ok()
+    }
+
+    pub fn update_with_split(
+        &mut self,
+        range: impl RangeBounds<usize>,
+        f: impl FnOnce(&mut Self),
+    ) -> (Option<Self>, Option<Self>) {
+        let mut f = Some(f);
+        let (a, b) = self.0.update_with_split(range, |x| {
+            let mut wrapped = Self(x.clone());
+            (f.take().unwrap())(&mut wrapped);
+            *x = wrapped.0;
+        });
+        (a.map(Self), b.map(Self))
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/generic_impl/mod.rs b/src/generic_impl/mod.rs
index 8272773..47929c1 100644
--- a/src/generic_impl/mod.rs
+++ b/src/generic_impl/mod.rs
@@ -2,6 +2,8 @@ mod gap_buffer;
 mod len_finder;
 mod ord;
 mod rope;
+#[cfg(generic_btree_verif_gap)]
+pub use gap_buffer::VerifGap;
 pub use len_finder::{LengthFinder, UseLengthFinder};
 pub use ord::{OrdTreeMap, OrdTreeSet};
 pub use rope::Rope;
diff --git a/src/lib.rs b/src/lib.rs
index 04e7812..c6375d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 #![doc = include_str!("../README.md")]
 #![forbid(unsafe_code)]
+// `generic_btree_verif` is set only by verification builds, through RUSTFLAGS
+#![allow(unexpected_cfgs)]
 
 use core::{fmt::Debug, ops::Range};
 use std::collections::{BTreeSet, VecDeque};
@@ -24,7 +26,11 @@ pub mod rle;
 
 pub type HeapVec<T> = Vec<T>;
 
+#[cfg(not(generic_btree_verif))]
 const MAX_CHILDREN_NUM: usize = 12;
+// a small fan-out makes small histories reach several levels
+#[cfg(generic_btree_verif)]
+const MAX_CHILDREN_NUM: usize = 6;
 
 /// `Elem` should has length. `offset` in search result should always >= `Elem.rle_len()`
 pub trait BTreeTrait {
-- 
2.43.0


From 1eff7ff412432b41ced93399cf9c7d5e343f3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 15/17] fix: Rope::delete_range overflowed on a range that
 includes usize::MAX

---
 src/generic_impl/rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index ccc91bd..f3b4c2b 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -125,11 +125,11 @@ impl Rope {
 
         let start = match range.start_bound() {
             core::ops::Bound::Included(x) => *x,
-            core::ops::Bound::Excluded(x) => *x + 1,
+            core::ops::Bound::Excluded(x) => x.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&x) => x + 1,
+            core::ops::Bound::Included(&x) => x.saturating_add(1),
             core::ops::Bound::Excluded(&x) => x,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 8e5dd2fbcdcb2d26394e36127a49a1351768cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 16/17] fix: update_leaf refreshes the summary when a returned
 piece takes the place of the emptied element

The function given to update_leaf may say that the element's summary did not
change, e.g. for an element whose summary is neutral anyway. When it empties
the element and returns a piece, the piece is moved into the element's place,
and the summary must be renewed although the function did not ask for it.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c6375d5..fd56dab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1273,7 +1273,7 @@ impl<B: BTreeTrait> BTree<B> {
         let mut splitted = SplittedLeaves::default();
         let node = self.leaf_nodes.get_mut(node_idx.0).unwrap();
         let mut parent_idx = node.parent();
-        let (need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
+        let (mut need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
         {
             // Normalize returned values
             //
@@ -1304,6 +1304,7 @@ impl<B: BTreeTrait> BTree<B> {
                 if let Some(new_1) = new_insert_1 {
                     node.elem = new_1;
                     new_insert_1 = new_insert_2.take();
+                    need_update_cache = true;
                 }
             }
         }
-- 
2.43.0


From ac0ea9b9edd6f37c11bc71db1ea4fb901e555302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:42 +0000
Subject: [PATCH 17/17] fix: paths of trees with ten levels of nodes

A path from the root to a leaf had room for ten nodes. Appending 2 * 6^9
(about 20 million) elements gives a tree of ten levels of nodes and one of
leaves, and iter, drain, update and visit_previous_caches panicked on it.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fd56dab..16a2bc7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,7 +123,11 @@ impl Idx {
     }
 }
 
-type NodePath = HeaplessVec<Idx, 10>;
+/// The nodes from the root to a leaf.
+///
+/// Nodes other than the root have at least `MAX_CHILDREN_NUM / 2` children, and there are at most
+/// `u32::MAX` leaves, so 13 would be enough for a tree without sparse nodes.
+type NodePath = HeaplessVec<Idx, 16>;
 
 #[derive(Debug, Clone, PartialEq, Eq, Copy, Hash)]
 pub struct Cursor {
-- 
2.43.0

