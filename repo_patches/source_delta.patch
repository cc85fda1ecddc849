From 9c4133696ddb48caba92469f6062cc719f87bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 01/12] verif hook: node capacity selectable under
 cfg(sweep_verif)

---
 src/tree/consts.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/tree/consts.rs b/src/tree/consts.rs
index d834a44..b95816e 100644
--- a/src/tree/consts.rs
+++ b/src/tree/consts.rs
@@ -1,5 +1,24 @@
+#![allow(unexpected_cfgs)]
+
 /// Inner node Key capacity
+#[cfg(not(sweep_verif))]
 pub(crate) const INNER_N: usize = 64;
+/// Verification builds (`--cfg sweep_verif --cfg sweep_verif_n="2"`) use small nodes, so that
+/// deep trees need few keys.
+#[cfg(sweep_verif)]
+pub(crate) const INNER_N: usize = if cfg!(sweep_verif_n = "2") {
+    2
+} else if cfg!(sweep_verif_n = "3") {
+    3
+} else if cfg!(sweep_verif_n = "4") {
+    4
+} else if cfg!(sweep_verif_n = "5") {
+    5
+} else if cfg!(sweep_verif_n = "8") {
+    8
+} else {
+    64
+};
 /// Inner node Child capacity/branch factor
 pub(crate) const INNER_C: usize = INNER_N + 1;
 /// Leaf node capacity
@@ -7,8 +26,14 @@ pub(crate) const LEAF_N: usize = INNER_N;
 
 /// Minimum branching factor of the tree. Now the tree's deleting operation is merge at 1/4
 /// This value reduced tree's rotation fix count and also provide large enough leaf.
+#[cfg(not(sweep_verif))]
 pub(crate) const MIN_N: usize = INNER_N / 4;
+#[cfg(sweep_verif)]
+pub(crate) const MIN_N: usize = if INNER_N / 4 == 0 { 1 } else { INNER_N / 4 };
 
 /// Visit Stack capacity, it is the maximum depth of the tree.
 /// The formula is `ceil(log(u64::MAX, K))`, the K is the minimum branching factor of the tree.
+#[cfg(not(sweep_verif))]
 pub(crate) const MAX_DEPTH: usize = usize::MAX.ilog(MIN_N) as usize;
+#[cfg(sweep_verif)]
+pub(crate) const MAX_DEPTH: usize = 24;
-- 
2.43.0


From 0df8f139249846cd0282aef41fcc968e550eadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 02/12] fix: bulk_load no longer builds an inner node with a
 single child

When the number of nodes of a layer was one more than a multiple of the branch
factor, the last inner node got one child and no key. Removing from below it hit
unreachable!() because the child has no sibling. Take one child over from the
previous node instead.
---
 src/tree/bulk_load.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..4bbdb50 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,20 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut rest = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
         for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+            let mut chunk_size = rest.len().min(child_n);
+            if rest.len() == child_n + 1 {
+                // an inner node needs at least two children, do not leave a lone one for the last
+                chunk_size -= 1;
+            }
+            let (childs, remaining) = rest.split_at(chunk_size);
+            rest = remaining;
+
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From 8cdd3c1aff8b3585d9551d8a148a4d8fa84fa28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 03/12] fix: Iter::next_back counts the entries it yields

len was only decremented by next, so size_hint and len were wrong after
next_back, and mixing both ends yielded entries twice.
---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From e7cc3f5f9e8ec0f09cf73f7b8f2aa191d77224ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 04/12] fix: Cursor::first and Cursor::last return None on an
 empty tree

They read uninitialized slots of the empty root leaf.
---
 src/tree/cursor.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..48d2939 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -43,7 +43,8 @@ impl<'k, K: Key + 'k> Cursor<K> {
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
-        let kv = leaf.data_at(0);
+        // the root leaf of an empty tree has no data
+        let kv = leaf.try_data_at(0)?;
 
         Some((
             Self {
@@ -63,13 +64,15 @@ impl<'k, K: Key + 'k> Cursor<K> {
     {
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
-        let kv = leaf.data_at(leaf.len() - 1);
+        // the root leaf of an empty tree has no data
+        let offset = leaf.len().checked_sub(1)?;
+        let kv = leaf.data_at(offset);
 
         Some((
             Self {
                 k: kv.0.clone(),
                 leaf_id_hint: leaf_id,
-                offset_hint: leaf.len() - 1,
+                offset_hint: offset,
             },
             kv.1,
         ))
-- 
2.43.0


From 35c70a201f28297fbfe2ca3579a1e8fac2047069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 05/12] fix: merging inner nodes no longer drops a moved
 augmentation twice

---
 src/tree/tree_remove.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..7f98c54 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -2,7 +2,7 @@ use super::{
     entry_ref::EntryRef, BPlusTree, InnerMergeResult, InnerNode, LeafDeleteResult, NodeStore,
 };
 use crate::augment::Augmentation;
-use std::borrow::Borrow;
+use std::{borrow::Borrow, mem::ManuallyDrop};
 
 impl<S: NodeStore> BPlusTree<S> {
     pub(crate) fn remove_impl<Q>(&mut self, k: &Q) -> Option<(S::K, S::V)>
@@ -319,7 +319,11 @@ impl<S: NodeStore> BPlusTree<S> {
         let (result, slot_key) = node.remove_slot_with_right(slot);
 
         // merge right into left
-        let mut right = node_store.take_inner(right_child_id);
+        let right = node_store.take_inner(right_child_id);
+        // every key and augmentation of right is moved into left, so only its memory is to be
+        // freed: dropping it as a node would drop its first augmentation again
+        let mut right: Box<ManuallyDrop<InnerNode<S::K, S::Augmentation>>> =
+            unsafe { Box::from_raw(Box::into_raw(right).cast()) };
         let left = node_store.get_mut_inner(left_child_id);
         left.merge_next(slot_key, &mut right);
 
-- 
2.43.0


From 6921118136d7f6a772423dc2d652ae6cd097147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 06/12] fix: into_iter drops the root augmentation

---
 src/tree/mod.rs         | 13 +++++++------
 src/tree/tree_remove.rs |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..2afad43 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -86,7 +86,7 @@ mod tree_remove;
 #[derive(Clone)]
 pub struct BPlusTree<S: NodeStore> {
     root: NodeId,
-    root_augmentation: S::Augmentation,
+    root_augmentation: ManuallyDrop<S::Augmentation>,
     len: usize,
     node_store: ManuallyDrop<S>,
     st: Statistic,
@@ -101,7 +101,7 @@ where
         let (root_id, _) = node_store.new_empty_leaf();
         Self {
             root: NodeId::Leaf(root_id),
-            root_augmentation: S::Augmentation::default(),
+            root_augmentation: ManuallyDrop::new(S::Augmentation::default()),
             node_store: ManuallyDrop::new(node_store),
             len: 0,
 
@@ -119,7 +119,7 @@ where
 
         let me = Self {
             root,
-            root_augmentation: augmentation,
+            root_augmentation: ManuallyDrop::new(augmentation),
             node_store: ManuallyDrop::new(node_store),
             len,
 
@@ -158,11 +158,11 @@ where
 
         let result = match self.descend_insert(node_id, k, v) {
             DescendInsertResult::Inserted => {
-                self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
+                *self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
                 None
             }
             DescendInsertResult::Updated(prev_v) => {
-                self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
+                *self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
                 Some(prev_v)
             }
             DescendInsertResult::Split(k, new_child_id) => {
@@ -181,7 +181,7 @@ where
 
                 let new_root_id = self.node_store.add_inner(new_root);
                 self.root = new_root_id.into();
-                self.root_augmentation = new_root_augmentation;
+                *self.root_augmentation = new_root_augmentation;
                 None
             }
         };
@@ -199,6 +199,7 @@ where
     /// consume self and return the parts. This is useful when implementing `IntoIter`
     fn into_parts(self) -> (S, NodeId, usize) {
         let mut me = ManuallyDrop::new(self);
+        unsafe { ManuallyDrop::drop(&mut me.root_augmentation) };
         (
             unsafe { ManuallyDrop::take(&mut me.node_store) },
             me.root,
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 7f98c54..70c260d 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -83,7 +83,7 @@ impl<S: NodeStore> BPlusTree<S> {
                     };
 
                     if r.is_some() {
-                        tree.root_augmentation =
+                        *tree.root_augmentation =
                             Self::new_augmentation_for_id(&tree.node_store, tree.root);
                         tree.len -= 1;
                     }
-- 
2.43.0


From 72a833be77a7632825c5efa03e2bc325130a3e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 07/12] fix: GroupCount counts only the last group's items as
 its size

---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..cd61e50 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From a409df680c28d61ebc33d82855cebbbf9fdd8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 08/12] fix: GroupCount rank keeps the accumulated count below
 a first child

---
 src/augment/group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index cd61e50..8a4812b 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -291,9 +291,11 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
-
-        let (max_group, mut max_group_size) = last_augmentation.max_group()?;
+        // nothing to the left in this node, keep what is accumulated in upper nodes
+        let Some((max_group, mut max_group_size)) = rev_iter.next().and_then(|a| a.max_group())
+        else {
+            return rank;
+        };
 
         for a in rev_iter {
             match a.max_group() {
-- 
2.43.0


From c577e8fbc4ad29dbf28e81b8b1096305b117242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 09/12] fix: a panic while an inner node is filled no longer
 drops uninitialized augmentations

---
 src/tree/inner_node.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..28d13f2 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -110,6 +110,12 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         self.size == N as u16
     }
 
+    /// Create an empty inner node which does not drop its content
+    fn empty_uninit() -> Box<ManuallyDrop<Self>> {
+        // SAFETY: `ManuallyDrop` has the same layout as its content
+        unsafe { Box::from_raw(Box::into_raw(Self::empty()).cast()) }
+    }
+
     /// Create an empty inner node
     pub(crate) fn empty() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
@@ -134,7 +140,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // the iterators may panic, the node must not be dropped as a node before it is filled
+        let mut node = Self::empty_uninit();
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -159,7 +166,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         assert!(key_size + 1 == child_size);
         node.size = key_size;
 
-        node
+        // SAFETY: `ManuallyDrop` has the same layout as its content, which is initialized now
+        unsafe { Box::from_raw(Box::into_raw(node).cast()) }
     }
 
     pub(crate) fn keys(&self) -> &[K] {
-- 
2.43.0


From 99ee662f3efcd97425d791c0393743121c8baa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 10/12] fix: a panic in user code during insert or remove no
 longer leaves inconsistent nodes behind

---
 src/tree/leaf_node.rs   | 15 ++++++-
 src/tree/mod.rs         | 97 ++++++++++++++++++++++++++++-------------
 src/tree/tree_remove.rs | 19 +++++++-
 3 files changed, 97 insertions(+), 34 deletions(-)

diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index d8ea84d..d9b1772 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -210,8 +210,21 @@ impl<K: Key, V> LeafNode<K, V> {
     }
 
     /// insert / update (k, v), if node is full, then returns `LeafUpsertResult::IsFull`
+    #[cfg(test)]
     pub(crate) fn try_upsert(&mut self, k: K, v: V) -> LeafUpsertResult<K, V> {
-        match self.locate_slot(&k) {
+        let slot = self.locate_slot(&k);
+        self.try_upsert_at(slot, k, v)
+    }
+
+    /// insert / update (k, v) at `slot`, which is what `locate_slot` returns for k. If node is full,
+    /// then returns `LeafUpsertResult::IsFull`
+    pub(crate) fn try_upsert_at(
+        &mut self,
+        slot: Result<usize, usize>,
+        k: K,
+        v: V,
+    ) -> LeafUpsertResult<K, V> {
+        match slot {
             Ok(idx) => {
                 // update existing item
                 let prev_v =
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 2afad43..8668b4d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -156,7 +156,30 @@ where
     pub fn insert(&mut self, k: S::K, v: S::V) -> Option<S::V> {
         let node_id = self.root;
 
-        let result = match self.descend_insert(node_id, k, v) {
+        // this only compares keys, the tree is not modified before it is done
+        let (stack, leaf_id) = self.descend_to_leaf(&k);
+        let slot = self.node_store.get_leaf(leaf_id).locate_slot(&k);
+
+        let guard = ResetOnUnwind(self);
+        let result = guard.0.insert_at_slot(node_id, stack, leaf_id, slot, k, v);
+        std::mem::forget(guard);
+
+        #[cfg(test)]
+        self.validate();
+
+        result
+    }
+
+    fn insert_at_slot(
+        &mut self,
+        node_id: NodeId,
+        stack: VisitStack,
+        leaf_id: LeafNodeId,
+        slot: Result<usize, usize>,
+        k: S::K,
+        v: S::V,
+    ) -> Option<S::V> {
+        let result = match self.insert_and_ascend(stack, leaf_id, slot, k, v) {
             DescendInsertResult::Inserted => {
                 *self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
                 None
@@ -190,9 +213,6 @@ where
             self.len += 1;
         }
 
-        #[cfg(test)]
-        self.validate();
-
         result
     }
 
@@ -211,38 +231,32 @@ where
         &self.st
     }
 
-    fn descend_insert(
-        &mut self,
-        node_id: NodeId,
-        k: S::K,
-        v: S::V,
-    ) -> DescendInsertResult<S::K, S::V> {
-        match node_id {
-            NodeId::Inner(id) => self.insert_inner(id, k, v),
-            NodeId::Leaf(leaf_id) => self.insert_leaf(leaf_id, k, v),
+    /// Find the leaf whose range contains `k`, and the path to it
+    fn descend_to_leaf(&self, k: &S::K) -> (VisitStack, LeafNodeId) {
+        let mut stack = VisitStack::new();
+        let mut node_id = self.root;
+        loop {
+            match node_id {
+                NodeId::Inner(id) => {
+                    let node = self.node_store.get_inner(id);
+                    let (child_idx, child_id) = node.locate_child(k);
+                    stack.push(id, child_idx, child_id);
+                    node_id = child_id;
+                }
+                NodeId::Leaf(leaf_id) => return (stack, leaf_id),
+            }
         }
     }
 
-    fn insert_inner(
+    fn insert_and_ascend(
         &mut self,
-        mut id: InnerNodeId,
+        mut stack: VisitStack,
+        leaf_id: LeafNodeId,
+        slot: Result<usize, usize>,
         k: S::K,
         v: S::V,
     ) -> DescendInsertResult<S::K, S::V> {
-        let mut stack = VisitStack::new();
-        let mut r = loop {
-            let node = self.node_store.get_inner(id);
-            let (child_idx, child_id) = node.locate_child(&k);
-            stack.push(id, child_idx, child_id);
-
-            match child_id {
-                NodeId::Inner(child_inner) => {
-                    id = child_inner;
-                    continue;
-                }
-                NodeId::Leaf(leaf_id) => break self.insert_leaf(leaf_id, k, v),
-            }
-        };
+        let mut r = self.insert_leaf(leaf_id, slot, k, v);
 
         loop {
             // ascend process. Need to process split and update augment
@@ -309,9 +323,15 @@ where
         }
     }
 
-    fn insert_leaf(&mut self, id: LeafNodeId, k: S::K, v: S::V) -> DescendInsertResult<S::K, S::V> {
+    fn insert_leaf(
+        &mut self,
+        id: LeafNodeId,
+        slot: Result<usize, usize>,
+        k: S::K,
+        v: S::V,
+    ) -> DescendInsertResult<S::K, S::V> {
         let leaf_node = self.node_store.get_mut_leaf(id);
-        match leaf_node.try_upsert(k, v) {
+        match leaf_node.try_upsert_at(slot, k, v) {
             LeafUpsertResult::Inserted => {
                 self.node_store.cache_leaf(id);
                 DescendInsertResult::Inserted
@@ -816,6 +836,21 @@ where
     }
 }
 
+/// Held while the nodes are modified. The modifications call into user code (`Clone` and `Drop` of
+/// keys, augmentations), if that panics half way then the nodes are inconsistent, even to be
+/// dropped. So they are leaked and the tree is left empty.
+struct ResetOnUnwind<'a, S: NodeStore>(&'a mut BPlusTree<S>);
+
+impl<'a, S: NodeStore> Drop for ResetOnUnwind<'a, S> {
+    fn drop(&mut self) {
+        let mut node_store = S::default();
+        let (root_id, _) = node_store.new_empty_leaf();
+        self.0.node_store = ManuallyDrop::new(node_store);
+        self.0.root = NodeId::Leaf(root_id);
+        self.0.len = 0;
+    }
+}
+
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
         unsafe { drop(std::ptr::read(self).into_iter()) }
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 70c260d..26f2281 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -1,5 +1,6 @@
 use super::{
-    entry_ref::EntryRef, BPlusTree, InnerMergeResult, InnerNode, LeafDeleteResult, NodeStore,
+    entry_ref::{EntryRef, VisitStack},
+    BPlusTree, InnerMergeResult, InnerNode, LeafDeleteResult, LeafNodeId, NodeStore, ResetOnUnwind,
 };
 use crate::augment::Augmentation;
 use std::{borrow::Borrow, mem::ManuallyDrop};
@@ -18,11 +19,25 @@ impl<S: NodeStore> BPlusTree<S> {
     pub(crate) fn remove_by_ref(entry_ref: EntryRef<&mut Self>) -> Option<(S::K, S::V)> {
         let EntryRef {
             tree,
-            inner_stack: mut stack,
+            inner_stack: stack,
             leaf_id,
             offset,
         } = entry_ref;
 
+        let guard = ResetOnUnwind(tree);
+        let result = guard.0.remove_at_slot(stack, leaf_id, offset);
+        std::mem::forget(guard);
+        result
+    }
+
+    fn remove_at_slot(
+        &mut self,
+        mut stack: VisitStack,
+        leaf_id: LeafNodeId,
+        offset: usize,
+    ) -> Option<(S::K, S::V)> {
+        let tree = self;
+
         let mut r = {
             let leaf = tree.node_store.get_mut_leaf(leaf_id);
 
-- 
2.43.0


From 4503eaeeba453b9ba72d609c9a010f7c937ab204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 11/12] fix: the root node left behind when the tree loses a
 level is released

---
 src/tree/tree_remove.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 26f2281..2534fbe 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -78,12 +78,13 @@ impl<S: NodeStore> BPlusTree<S> {
                     let r = match r {
                         DeleteDescendResult::Done(kv) => Some(kv),
                         DeleteDescendResult::InnerUnderSize(deleted_item) => {
-                            let root = tree
-                                .node_store
-                                .get_mut_inner(unsafe { tree.root.inner_id_unchecked() });
+                            let root_id = unsafe { tree.root.inner_id_unchecked() };
+                            let root = tree.node_store.get_mut_inner(root_id);
 
                             if root.is_empty() {
                                 tree.root = root.child_id(0);
+                                // the old root is not part of the tree any more, release it
+                                drop(tree.node_store.take_inner(root_id));
                             }
 
                             Some(deleted_item)
-- 
2.43.0


From 1f8a531860e73d9fc720bcc641e8f70e5d5f23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 12/12] fix: an index out of range from a search augmentation
 panics instead of reading out of bounds

---
 src/tree/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 8668b4d..cd9d4eb 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -704,6 +704,9 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    if offset > inner.len() {
+                        panic!("invalid index");
+                    }
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -716,6 +719,9 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    if slot >= leaf.len() {
+                        panic!("invalid index");
+                    }
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0

