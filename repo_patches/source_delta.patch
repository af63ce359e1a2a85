From 9aab249a9214fe717e15ecf5e125c7f061691e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 01/13] verif hook: smaller node capacity under
 cfg(verif_small_nodes)

---
 src/tree/consts.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/consts.rs b/src/tree/consts.rs
index d834a44..14e3de4 100644
--- a/src/tree/consts.rs
+++ b/src/tree/consts.rs
@@ -1,5 +1,13 @@
+// `verif_small_nodes` is a verification-only cfg, passed through RUSTFLAGS.
+#![allow(unexpected_cfgs)]
+
 /// Inner node Key capacity
+#[cfg(not(verif_small_nodes))]
 pub(crate) const INNER_N: usize = 64;
+/// Inner node Key capacity, reduced so that verification harnesses reach deep trees with few
+/// entries. Only active with `--cfg verif_small_nodes`.
+#[cfg(verif_small_nodes)]
+pub(crate) const INNER_N: usize = 8;
 /// Inner node Child capacity/branch factor
 pub(crate) const INNER_C: usize = INNER_N + 1;
 /// Leaf node capacity
-- 
2.43.0


From f39b56f2c898a25cc919639a027d60cd36af2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 02/13] fix: borrowed iterator counts items taken from the back

next_back did not decrement the remaining length, so mixing both ends
repeated entries and the reported length was wrong.
---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From 3c0e359b8582ed25ca08c91b90a9e238e1fdd820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 03/13] fix: no first or last cursor on an empty tree

Cursor::first read uninitialised memory of the empty root leaf and
Cursor::last underflowed.
---
 src/tree/cursor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..2e25c96 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -40,6 +40,10 @@ impl<'k, K: Key + 'k> Cursor<K> {
     where
         'k: 'b,
     {
+        if tree.is_empty() {
+            return None;
+        }
+
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
@@ -61,6 +65,10 @@ impl<'k, K: Key + 'k> Cursor<K> {
     where
         'k: 'b,
     {
+        if tree.is_empty() {
+            return None;
+        }
+
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
         let kv = leaf.data_at(leaf.len() - 1);
-- 
2.43.0


From ce3c91c6d088094d524ad0d034ac1ab87be508cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 04/13] fix: count the max group of a leaf from its own first
 entry

With three or more groups in a leaf, the size of the max group included
the entries of the groups between min and max.
---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..cd61e50 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From e254513194ce9abdd993ea401515866e74b96498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 05/13] fix: keep the group rank of upper levels when a level
 adds nothing

fold_inner discarded the accumulated rank whenever the key descends into
the leftmost child of an inner node.
---
 src/augment/group.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index cd61e50..7a27d1a 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -291,9 +291,12 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
 
-        let (max_group, mut max_group_size) = last_augmentation.max_group()?;
+        // nothing to the left at this level, what upper levels accumulated still holds
+        let Some((max_group, mut max_group_size)) = rev_iter.next().and_then(Self::max_group)
+        else {
+            return rank;
+        };
 
         for a in rev_iter {
             match a.max_group() {
-- 
2.43.0


From cac24ee959a7b440cd88a412e88da8300a506d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 06/13] fix: bulk load never builds an inner node with a single
 child

A remainder of one child produced an inner node without keys, and a later
removal below it panicked.
---
 src/tree/bulk_load.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..616eda1 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,22 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut rest = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
         for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+            // An inner node needs at least two childs, so leave one more for the last node if it
+            // would end up with a single child.
+            let size = if rest.len() == child_n + 1 {
+                child_n - 1
+            } else {
+                child_n.min(rest.len())
+            };
+            let (childs, remaining) = rest.split_at(size);
+            rest = remaining;
+
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From 5c7fd6e7b73f1f9e8bf959c47acbb743c4f2adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 07/13] fix: check the positions returned by a user's
 SearchAugmentation

Out of range positions were used unchecked and read uninitialised or
out of bounds memory from safe code.
---
 src/tree/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..608eb09 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -683,6 +683,7 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    assert!(offset <= inner.len(), "invalid child index");
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -695,6 +696,7 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    assert!(slot < leaf.len(), "invalid slot");
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0


From d6bade3d0d1b839d20d1a51d514e8ae6bb4cfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 08/13] fix: release the root augmentation when a tree is
 consumed

Turning a tree into an iterator forgot the root augmentation, which leaks
whatever it owns.
---
 src/tree/iterator.rs | 18 +++++++++++++++++-
 src/tree/mod.rs      | 12 +-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index 8474416..8199cef 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -127,11 +127,27 @@ pub struct IntoIter<S: NodeStore> {
 
 impl<S: NodeStore> IntoIter<S> {
     pub fn new(tree: BPlusTree<S>) -> Self {
+        let mut tree = ManuallyDrop::new(tree);
+        // Safety: the tree's drop never runs, so both the node store and the root augmentation are
+        //         released exactly once.
+        unsafe {
+            let iter = Self::take_from(&mut tree);
+            std::ptr::drop_in_place(&mut tree.root_augmentation);
+            iter
+        }
+    }
+
+    /// Moves the node store out of the tree, everything else is left in place
+    ///
+    /// # Safety
+    /// The tree must not be used afterwards.
+    pub(crate) unsafe fn take_from(tree: &mut BPlusTree<S>) -> Self {
         // the tree ensures there is at least one leaf
         let first_leaf_id = tree.first_leaf().unwrap();
         let last_leaf_id = tree.last_leaf().unwrap();
 
-        let (node_store, _root_id, len) = tree.into_parts();
+        let len = tree.len;
+        let node_store = ManuallyDrop::take(&mut tree.node_store);
 
         let last_leaf_size = node_store.get_leaf(last_leaf_id).len();
 
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 608eb09..0af92f0 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -196,16 +196,6 @@ where
         result
     }
 
-    /// consume self and return the parts. This is useful when implementing `IntoIter`
-    fn into_parts(self) -> (S, NodeId, usize) {
-        let mut me = ManuallyDrop::new(self);
-        (
-            unsafe { ManuallyDrop::take(&mut me.node_store) },
-            me.root,
-            me.len,
-        )
-    }
-
     pub fn statistic(&self) -> &Statistic {
         &self.st
     }
@@ -819,7 +809,7 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        unsafe { drop(IntoIter::take_from(self)) }
     }
 }
 
-- 
2.43.0


From 35161c792e5e738482e50d5f374ab402be2709d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 09/13] fix: merging inner nodes does not drop a moved
 augmentation again

The emptied right node still dropped its first augmentation, which had
been moved to the left node.
---
 src/tree/tree_remove.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..2365fdf 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -3,6 +3,7 @@ use super::{
 };
 use crate::augment::Augmentation;
 use std::borrow::Borrow;
+use std::mem::ManuallyDrop;
 
 impl<S: NodeStore> BPlusTree<S> {
     pub(crate) fn remove_impl<Q>(&mut self, k: &Q) -> Option<(S::K, S::V)>
@@ -323,6 +324,14 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_inner(left_child_id);
         left.merge_next(slot_key, &mut right);
 
+        // Safety: all keys and augmentations of right are moved to left, so only release the memory.
+        //         Its drop would drop the first augmentation again.
+        drop(unsafe {
+            Box::from_raw(
+                Box::into_raw(right).cast::<ManuallyDrop<InnerNode<S::K, S::Augmentation>>>(),
+            )
+        });
+
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
 
-- 
2.43.0


From 7e07b48f1c6205536d1f2cffecb066af075a97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 10/13] fix: a panic while an inner node is built does not drop
 uninitialized augmentations

---
 src/tree/inner_node.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..265183a 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -134,7 +134,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // Not dropped if one of the iterators panics: it is not initialized yet.
+        let mut node = mem::ManuallyDrop::new(Self::empty());
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -159,7 +160,7 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         assert!(key_size + 1 == child_size);
         node.size = key_size;
 
-        node
+        mem::ManuallyDrop::into_inner(node)
     }
 
     pub(crate) fn keys(&self) -> &[K] {
-- 
2.43.0


From 299d2b591ab9f23ded37b1e5988cdee15cf2524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 11/13] fix: a panic in the clone of a split leaf's key leaves
 the tree as it was

---
 src/tree/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 0af92f0..517bf99 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -310,8 +310,15 @@ where
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
+                // the key which becomes the first one of the right leaf, cloned first since a panic
+                // in clone must not leave a half linked leaf behind.
+                let split_at = S::leaf_n() as usize / 2;
+                let slot_key: S::K = if idx == split_at {
+                    k.clone()
+                } else {
+                    l_leaf.data_at(split_at).0.clone()
+                };
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
-                let slot_key: S::K = r_leaf.data_at(0).0.clone();
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
-- 
2.43.0


From 7fb44eb2c1d22bc348b0c3ca63b208c6df85a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 12/13] fix: a panicking augmentation does not leave the entry
 count wrong

---
 src/tree/mod.rs         | 7 +++----
 src/tree/tree_remove.rs | 4 +++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 517bf99..75f3591 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -186,10 +186,6 @@ where
             }
         };
 
-        if result.is_none() {
-            self.len += 1;
-        }
-
         #[cfg(test)]
         self.validate();
 
@@ -302,6 +298,8 @@ where
         let leaf_node = self.node_store.get_mut_leaf(id);
         match leaf_node.try_upsert(k, v) {
             LeafUpsertResult::Inserted => {
+                // counted right away, since the augmentations updated later may panic
+                self.len += 1;
                 self.node_store.cache_leaf(id);
                 DescendInsertResult::Inserted
             }
@@ -319,6 +317,7 @@ where
                     l_leaf.data_at(split_at).0.clone()
                 };
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
+                self.len += 1;
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 2365fdf..ff94cf4 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -33,6 +33,9 @@ impl<S: NodeStore> BPlusTree<S> {
             }
         };
 
+        // the entry is (or will be) gone, whether or not an augmentation updated below panics
+        tree.len -= 1;
+
         // pop visit stack and fix things up
         loop {
             match stack.pop() {
@@ -86,7 +89,6 @@ impl<S: NodeStore> BPlusTree<S> {
                     if r.is_some() {
                         tree.root_augmentation =
                             Self::new_augmentation_for_id(&tree.node_store, tree.root);
-                        tree.len -= 1;
                     }
 
                     return r;
-- 
2.43.0


From 88cb40bc2ec5551116d77d4b58b60df8a1e119bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 13/13] fix: a callback panicking while nodes are split or
 merged does not leave dangling nodes

---
 src/tree/mod.rs         | 59 +++++++++++++++++++++++++++++++++--------
 src/tree/tree_remove.rs |  9 +++++++
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 75f3591..580d091 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -166,10 +166,11 @@ where
                 Some(prev_v)
             }
             DescendInsertResult::Split(k, new_child_id) => {
+                let guard = RestructureGuard::new(self, true);
                 let prev_root_augmentation =
-                    Self::new_augmentation_for_id(&self.node_store, node_id);
+                    Self::new_augmentation_for_id(&guard.tree.node_store, node_id);
                 let new_augmentation =
-                    Self::new_augmentation_for_id(&self.node_store, new_child_id);
+                    Self::new_augmentation_for_id(&guard.tree.node_store, new_child_id);
 
                 let new_root = InnerNode::<S::K, S::Augmentation>::new(
                     [k],
@@ -178,6 +179,7 @@ where
                 );
                 let new_root_augmentation =
                     S::Augmentation::from_inner(new_root.keys(), new_root.augmentations());
+                guard.done();
 
                 let new_root_id = self.node_store.add_inner(new_root);
                 self.root = new_root_id.into();
@@ -229,17 +231,22 @@ where
             }
         };
 
+        let mut guard = RestructureGuard::new(self, true);
         loop {
+            // the tree is inconsistent as long as a split is not recorded in the parent
+            guard.ongoing = matches!(r, DescendInsertResult::Split(..));
+            let node_store = &mut guard.tree.node_store;
+
             // ascend process. Need to process split and update augment
             match stack.pop() {
                 Some((id, child_idx, child_id)) => match r {
                     DescendInsertResult::Split(key, right_child) => {
                         let right_child_augmentation =
-                            Self::new_augmentation_for_id(&self.node_store, right_child);
+                            Self::new_augmentation_for_id(node_store, right_child);
                         let child_augmentation =
-                            Self::new_augmentation_for_id(&self.node_store, child_id);
+                            Self::new_augmentation_for_id(node_store, child_id);
 
-                        let inner_node = self.node_store.get_mut_inner(id);
+                        let inner_node = node_store.get_mut_inner(id);
                         // it's easier to update augment here, the split logic handles augmentations split
                         // too.
                         inner_node.set_augmentation(child_idx, child_augmentation);
@@ -255,28 +262,31 @@ where
                                 right_child,
                                 right_child_augmentation,
                             );
-                            let new_node_id = self.node_store.add_inner(new_node);
+                            let new_node_id = node_store.add_inner(new_node);
                             r = DescendInsertResult::Split(prompt_k, NodeId::Inner(new_node_id));
                         }
                     }
                     DescendInsertResult::Inserted => {
                         let child_augmentation =
-                            Self::new_augmentation_for_id(&self.node_store, child_id);
-                        let inner_node = self.node_store.get_mut_inner(id);
+                            Self::new_augmentation_for_id(node_store, child_id);
+                        let inner_node = node_store.get_mut_inner(id);
                         inner_node.set_augmentation(child_idx, child_augmentation);
 
                         continue;
                     }
                     DescendInsertResult::Updated(_) => {
                         let child_augmentation =
-                            Self::new_augmentation_for_id(&self.node_store, child_id);
-                        let inner_node = self.node_store.get_mut_inner(id);
+                            Self::new_augmentation_for_id(node_store, child_id);
+                        let inner_node = node_store.get_mut_inner(id);
                         inner_node.set_augmentation(child_idx, child_augmentation);
 
                         continue;
                     }
                 },
-                None => return r,
+                None => {
+                    guard.done();
+                    return r;
+                }
             }
         }
     }
@@ -813,6 +823,33 @@ where
     }
 }
 
+/// Guards the time from splitting, rotating or merging nodes until their parent reflects it. User
+/// code (clones, augmentations and drops) runs meanwhile. If it panics, the nodes can't be used any
+/// more, so the tree is left empty and its entries leak.
+struct RestructureGuard<'a, S: NodeStore> {
+    tree: &'a mut BPlusTree<S>,
+    /// whether the tree is inconsistent
+    ongoing: bool,
+}
+
+impl<'a, S: NodeStore> RestructureGuard<'a, S> {
+    fn new(tree: &'a mut BPlusTree<S>, ongoing: bool) -> Self {
+        Self { tree, ongoing }
+    }
+
+    fn done(mut self) {
+        self.ongoing = false;
+    }
+}
+
+impl<S: NodeStore> Drop for RestructureGuard<'_, S> {
+    fn drop(&mut self) {
+        if self.ongoing {
+            std::mem::forget(std::mem::replace(self.tree, BPlusTree::new(S::default())));
+        }
+    }
+}
+
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
         unsafe { drop(IntoIter::take_from(self)) }
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index ff94cf4..6a9bad9 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -1,5 +1,6 @@
 use super::{
     entry_ref::EntryRef, BPlusTree, InnerMergeResult, InnerNode, LeafDeleteResult, NodeStore,
+    RestructureGuard,
 };
 use crate::augment::Augmentation;
 use std::borrow::Borrow;
@@ -36,8 +37,14 @@ impl<S: NodeStore> BPlusTree<S> {
         // the entry is (or will be) gone, whether or not an augmentation updated below panics
         tree.len -= 1;
 
+        let mut guard = RestructureGuard::new(tree, true);
+
         // pop visit stack and fix things up
         loop {
+            // the tree is inconsistent as long as a node is under size
+            guard.ongoing = !matches!(r, DeleteDescendResult::Done(_));
+            let tree = &mut *guard.tree;
+
             match stack.pop() {
                 Some((parent_id, child_idx, child_id)) => {
                     match r {
@@ -86,6 +93,8 @@ impl<S: NodeStore> BPlusTree<S> {
                         }
                     };
 
+                    guard.ongoing = false;
+                    let tree = &mut *guard.tree;
                     if r.is_some() {
                         tree.root_augmentation =
                             Self::new_augmentation_for_id(&tree.node_store, tree.root);
-- 
2.43.0

