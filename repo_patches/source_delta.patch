From 3f1814bad9b69071e114397265b07648c15bad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 01/17] fix: freeze an empty version under its own version
 number

When the tree has no root at the previous version and the first version
holds no effective update, freeze() stored the null root under the
previous version's key, so the version just frozen had no root node.
---
 src/tree_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..e91d3ec 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -296,7 +296,10 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The missing root may belong to an earlier version (if
+            // nothing was ever committed there), so the null node goes to the version being frozen.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From 23794882b7320bc1797c5b4c9e7ee22752e36241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 02/17] fix: mark the root replaced by a version without
 changes as stale

freeze() copies the root node to the new version when a set of updates has
no effect, but neither recorded the replaced root as stale nor continued
from the copy. The old root (or, in a multi-version call, the copy) was
never covered by a stale record and stayed in storage after pruning. The
copy was also skipped at version zero on top of a pre-genesis root.
---
 src/tree_cache.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index e91d3ec..6469977 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -316,12 +316,14 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        // The copy replaces the previous root node, which is not used from this version on.
+        if root_node_key.version() != self.next_version
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-            let root_node = self.get_node(&self.root_node_key)?;
+            self.delete_node(&root_node_key, root_node.is_leaf());
             root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From 7d5613cedabcf658eac68430d1ff1a374c7c6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 03/17] fix: mark a null root as stale when the tree becomes
 non-empty again

Inserting into an emptied tree only removed the null root if it belonged to
the version being built. A null root of an earlier version was never
recorded as stale, so every such cycle left one node in storage forever.
---
 src/tree.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..e68d49c 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -209,9 +209,8 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                // The null root is replaced by the new subtree.
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -623,8 +622,8 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if root_node_key.version() == version && node_already_exists {
+                // Delete the old null node if it is at the same version or replaced by a new leaf
+                if node_already_exists && (root_node_key.version() == version || value.is_some()) {
                     tree_cache.delete_node(&root_node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
-- 
2.43.0


From 19049f97be1a8b5333961ea600d61fa48f062834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 04/17] fix: report unreadable sibling nodes as errors instead
 of panicking

Building a proof unwrapped the reader's result for every sibling node, so a
failing store, or reading a version whose nodes were partly pruned, made
get_with_proof and put_value_sets_with_proof panic.
---
 src/node_type.rs | 47 +++++++++++++++++++++++++++++------------------
 src/tree.rs      | 31 +++++++++++++++----------------
 2 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/node_type.rs b/src/node_type.rs
index e12bf1b..863167b 100644
--- a/src/node_type.rs
+++ b/src/node_type.rs
@@ -14,7 +14,7 @@ use crate::SimpleHasher;
 use alloc::format;
 use alloc::vec::Vec;
 use alloc::{boxed::Box, vec};
-use anyhow::Context;
+use anyhow::{bail, Context, Result};
 use borsh::{BorshDeserialize, BorshSerialize};
 use num_derive::{FromPrimitive, ToPrimitive};
 #[cfg(any(test))]
@@ -508,11 +508,11 @@ impl InternalNode {
         start: u8,
         width: u8,
         (existence_bitmap, leaf_bitmap): (u16, u16),
-    ) -> SparseMerkleNode {
+    ) -> Result<SparseMerkleNode> {
         // Given a bit [start, 1 << nibble_height], return the value of that range.
         let (range_existence_bitmap, range_leaf_bitmap) =
             Self::range_bitmaps(start, width, (existence_bitmap, leaf_bitmap));
-        if range_existence_bitmap == 0 {
+        Ok(if range_existence_bitmap == 0 {
             // No child under this subtree
             SparseMerkleNode::Null
         } else if has_only_child(width, range_existence_bitmap, range_leaf_bitmap) {
@@ -538,15 +538,14 @@ impl InternalNode {
                          the child of version {:?} at index {:x}.",
                         child.version, only_child_index
                     )
-                })
-                .unwrap();
+                })?;
 
             match child_node {
                 Node::Internal(node) => {
                     SparseMerkleNode::Internal(SparseMerkleInternalNode::from::<H>(node))
                 }
                 Node::Leaf(node) => SparseMerkleNode::Leaf(SparseMerkleLeafNode::from(node)),
-                Node::Null => unreachable!("Impossible to get a null node at this location"),
+                Node::Null => bail!("Impossible to get a null node at this location"),
             }
         } else {
             let left_child = self.merkle_hash::<H>(
@@ -560,7 +559,7 @@ impl InternalNode {
                 (range_existence_bitmap, range_leaf_bitmap),
             );
             SparseMerkleNode::Internal(SparseMerkleInternalNode::new(left_child, right_child))
-        }
+        })
     }
 
     fn merkle_hash<H: SimpleHasher>(
@@ -604,7 +603,7 @@ impl InternalNode {
     }
 
     /// Gets the child without its corresponding siblings (like using
-    /// [`get_only_child_with_siblings`](InternalNode::get_only_child_with_siblings) and dropping the
+    /// [`try_get_only_child_with_siblings`](InternalNode::try_get_only_child_with_siblings) and dropping the
     /// siblings, but more efficient).
     pub fn get_only_child_without_siblings(
         &self,
@@ -679,7 +678,7 @@ impl InternalNode {
         node_key: &NodeKey,
         n: Nibble,
         get_only_child: bool,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         let mut siblings: Vec<SparseMerkleNode> = vec![];
         let (existence_bitmap, leaf_bitmap) = self.generate_bitmaps();
 
@@ -698,14 +697,14 @@ impl InternalNode {
                 sibling_half_start,
                 width,
                 (existence_bitmap, leaf_bitmap),
-            ));
+            )?);
 
             let (range_existence_bitmap, range_leaf_bitmap) =
                 Self::range_bitmaps(child_half_start, width, (existence_bitmap, leaf_bitmap));
 
             if range_existence_bitmap == 0 {
                 // No child in this range.
-                return (None, siblings);
+                return Ok((None, siblings));
             } else if get_only_child
                 && (has_only_child(width, range_existence_bitmap, range_leaf_bitmap))
             {
@@ -714,7 +713,7 @@ impl InternalNode {
                 // `None` because it's existence indirectly proves the n-th child doesn't exist.
                 // Please read proof format for details.
                 let only_child_index = Nibble::from(range_existence_bitmap.trailing_zeros() as u8);
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(only_child_index)
@@ -731,13 +730,13 @@ impl InternalNode {
                         Some(node_key.gen_child_node_key(only_child_version, only_child_index))
                     },
                     siblings,
-                );
+                ));
             } else if !get_only_child
                 && (has_child(width, range_existence_bitmap, n_bitmap, range_leaf_bitmap))
             {
                 // Early return the child in that subtree iff it is the only child and the nibble points
                 // to it
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(n)
@@ -754,7 +753,7 @@ impl InternalNode {
                         Some(node_key.gen_child_node_key(only_child_version, n))
                     },
                     siblings,
-                );
+                ));
             }
         }
         unreachable!("Impossible to get here without returning even at the lowest level.")
@@ -767,23 +766,35 @@ impl InternalNode {
         tree_cache: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         self.get_child_with_siblings_helper::<H>(tree_cache, node_key, n, false)
     }
 
-    /// [`get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
+    /// [`try_get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
     /// child in the largest width range pointed by n (see the helper function [`get_child_with_siblings_helper`] for more information).
     ///
     /// Even this leaf child is not the n-th child, it should be returned instead of
     /// `None` because it's existence indirectly proves the n-th child doesn't exist.
     /// Please read proof format for details.
+    pub(crate) fn try_get_only_child_with_siblings<H: SimpleHasher>(
+        &self,
+        tree_reader: &impl TreeReader,
+        node_key: &NodeKey,
+        n: Nibble,
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
+        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+    }
+
+    /// Infallible variant of [`try_get_only_child_with_siblings`] for tests.
+    #[cfg(test)]
     pub(crate) fn get_only_child_with_siblings<H: SimpleHasher>(
         &self,
         tree_reader: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
     ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
-        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+        self.try_get_only_child_with_siblings::<H>(tree_reader, node_key, n)
+            .unwrap()
     }
 
     #[cfg(test)]
diff --git a/src/tree.rs b/src/tree.rs
index e68d49c..76ddef0 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -671,7 +671,7 @@ where
                         tree_cache,
                         &node_key,
                         child_index,
-                    );
+                    )?;
                     (child_key.unwrap(), siblings)
                 } else {
                     (
@@ -708,19 +708,18 @@ where
                 // we are looking for.
                 let merkle_proof = if with_proof {
                     let (child_key_opt, mut siblings) = internal_node
-                        .get_only_child_with_siblings::<H>(tree_cache, &node_key, child_index);
-
-                    let leaf: Option<SparseMerkleLeafNode> = child_key_opt.map(|child_key|
-                    {
-                        // We should be able to find the node in the case
-                        let node = tree_cache.get_node(&child_key).expect("this node should be in the cache");
-                        match node {
-                            Leaf(leaf_node) => {
-                                leaf_node.into()
-                            },
-                            _ => unreachable!("get_only_child_with_siblings should return a leaf node in that case")
-                        }
-                    });
+                        .try_get_only_child_with_siblings::<H>(
+                            tree_cache,
+                            &node_key,
+                            child_index,
+                        )?;
+
+                    let leaf: Option<SparseMerkleLeafNode> = child_key_opt
+                        .map(|child_key| match tree_cache.get_node(&child_key)? {
+                            Leaf(leaf_node) => Ok(leaf_node.into()),
+                            _ => bail!("the only child in the queried range should be a leaf node"),
+                        })
+                        .transpose()?;
 
                     siblings.reverse();
                     Some(SparseMerkleProof::new(leaf, siblings))
@@ -1030,11 +1029,11 @@ where
                         .ok_or_else(|| format_err!("ran out of nibbles"))?;
 
                     let (child_node_key, mut siblings_in_internal) = internal_node
-                        .get_only_child_with_siblings::<H>(
+                        .try_get_only_child_with_siblings::<H>(
                             self.reader,
                             &next_node_key,
                             queried_child_index,
-                        );
+                        )?;
 
                     siblings.append(&mut siblings_in_internal);
                     next_node_key = match child_node_key {
-- 
2.43.0


From 77906f2b22f239ac51f6dbbc61012f8251f5d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 05/17] fix: make update proofs serializable with serde for
 every hasher

The derived implementation required the hasher type itself to implement
Serialize and Deserialize, which no hash function does, so an
UpdateMerkleProof could not be serialized at all. Drop the bound, as for
SparseMerkleProof.
---
 src/types/proof/definition.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..75f84a6 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -513,6 +513,8 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
 #[derive(Debug, Serialize, Deserialize, borsh::BorshSerialize, borsh::BorshDeserialize)]
 pub struct UpdateMerkleProof<H: SimpleHasher>(
+    // Prevent serde from adding a spurious Serialize/Deserialize bound on H
+    #[serde(bound(serialize = "", deserialize = ""))]
     #[borsh(bound(serialize = "", deserialize = ""))] Vec<SparseMerkleProof<H>>,
 );
 
-- 
2.43.0


From 4b52f5dacb73add830243d71670752029a2118e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 06/17] fix: check the inserted key's position and the proof
 length in update proofs

An insert proven by the leaf of another key was only checked for leading to
the old root, not for that leaf being where the new key belongs, so a proof
of an unrelated key made verify_update panic or certify a root the update
does not lead to. Paths of more than 256 siblings made it panic as well.
---
 src/types/proof/definition.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 75f84a6..e31be67 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -315,9 +315,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                 // In the case there is a leaf in the Merkle path, we check that this leaf exists in the tree
                 // The inserted key is going to update an existing leaf
                 Some(leaf_node) => {
-                    // First verify that the old merkle path is valid
-                    ensure!(self.root_hash() == old_root_hash);
                     if new_element_key == leaf_node.key_hash {
+                        // First verify that the old merkle path is valid
+                        self.ensure_path_to_root(old_root_hash)?;
+
                         // Step 2: we compute the new Merkle path (we build a new [`SparseMerkleProof`] object)
                         // In this case the siblings are left unchanged, only the leaf value is updated
                         let new_merkle_path: SparseMerkleProof<H> = SparseMerkleProof::new(
@@ -331,6 +332,9 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                         // Step 3: we compute the new Merkle root
                         Ok(new_merkle_path.root_hash())
                     } else {
+                        // First verify that the new key would end up at the leaf to split
+                        self.verify_nonexistence(old_root_hash, new_element_key)?;
+
                         let new_merkle_path = self.compute_new_merkle_path_on_split(
                             leaf_node,
                             new_element_key,
@@ -365,7 +369,7 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         } else {
             // No value supplied, we need to prove that the previous value was deleted
             if let Some(leaf_node) = self.leaf {
-                ensure!(self.root_hash() == old_root_hash);
+                self.ensure_path_to_root(old_root_hash)?;
                 ensure!(
                     new_element_key == leaf_node.key_hash,
                     "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
@@ -482,6 +486,23 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         }
     }
 
+    /// Checks that the path from the leaf of this proof leads to the expected root.
+    fn ensure_path_to_root(&self, expected_root_hash: RootHash) -> Result<()> {
+        ensure!(
+            self.siblings.len() <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            self.siblings.len(),
+        );
+        ensure!(
+            self.root_hash() == expected_root_hash,
+            "The path of leaf {:?} does not lead to root hash {:?}.",
+            self.leaf,
+            expected_root_hash,
+        );
+        Ok(())
+    }
+
     pub fn root_hash(&self) -> RootHash {
         let current_hash = self
             .leaf
-- 
2.43.0


From 9a695fb16bbba6820b2d493d65f16a0d8d9f7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 07/17] fix: prove and verify that a deleted key is absent when
 a delete changes nothing

The update proof of a delete without effect was an empty proof, and a delete
with an empty proof was accepted without looking at the old root, so anybody
could have the delete of an existing key certified as changing nothing. Such
deletes now carry, and are checked against, the key's non-existence proof.
---
 src/tree.rs                   | 25 +++++++------------------
 src/types/proof/definition.rs | 14 ++++++--------
 2 files changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 76ddef0..dbc7ff1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -742,15 +742,8 @@ where
                         merkle_proof,
                     )
                 } else {
-                    // If there was no changes, don't generate a proof
-                    (
-                        PutResult::NotChanged,
-                        if with_proof {
-                            Some(SparseMerkleProof::new(None, vec![]))
-                        } else {
-                            None
-                        },
-                    )
+                    // If there was no changes, the proof shows that the key doesn't exist
+                    (PutResult::NotChanged, merkle_proof)
                 }
             }
         };
@@ -759,14 +752,7 @@ where
         let mut children: Children = internal_node.into();
         match put_result {
             PutResult::NotChanged => {
-                return Ok((
-                    PutResult::NotChanged,
-                    if with_proof {
-                        Some(SparseMerkleProof::new(None, vec![]))
-                    } else {
-                        None
-                    },
-                ));
+                return Ok((PutResult::NotChanged, merkle_proof));
             }
             PutResult::Updated((_, new_node)) => {
                 // update child
@@ -968,7 +954,10 @@ where
             Ok((
                 PutResult::NotChanged,
                 if with_proof {
-                    Some(SparseMerkleProof::new(None, vec![]))
+                    Some(SparseMerkleProof::new(
+                        Some(existing_leaf_node.into()),
+                        vec![],
+                    ))
                 } else {
                     None
                 },
diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index e31be67..9a2eb54 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -368,14 +368,11 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
             }
         } else {
             // No value supplied, we need to prove that the previous value was deleted
-            if let Some(leaf_node) = self.leaf {
+            if self
+                .leaf
+                .map_or(false, |leaf_node| leaf_node.key_hash == new_element_key)
+            {
                 self.ensure_path_to_root(old_root_hash)?;
-                ensure!(
-                    new_element_key == leaf_node.key_hash,
-                    "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
-                    new_element_key,
-                    leaf_node.key_hash
-                );
 
                 // Step 2: we compute the new Merkle tree path.
                 // In case of deletion, we need to rewind the nibble until we reach the first non-default hash
@@ -479,8 +476,9 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 Ok(new_merkle_hash)
             } else {
-                // We just return the old root hash if we try to remove the empty node
+                // We return the old root hash if the key to remove is proven not to be in the tree,
                 // because there isn't any changes to the merkle tree
+                self.verify_nonexistence(old_root_hash, new_element_key)?;
                 Ok(old_root_hash)
             }
         }
-- 
2.43.0


From 1dbe6d98b5efcbada9bc32b81f057cfc7650ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 08/17] verification hook: export ExclusionProof under
 cfg(jmt_verif)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 553bc91..c54cac1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,6 +98,9 @@ pub use iterator::JellyfishMerkleIterator;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
 pub use tree::JellyfishMerkleTree;
+// Verification hook: lets an external harness look into exclusion proofs.
+#[cfg(jmt_verif)]
+pub use tree::ExclusionProof;
 #[cfg(any(test, feature = "sha2"))]
 pub use tree::Sha256Jmt;
 
-- 
2.43.0


From 0649d2a1a14add43a0003741d99b099be2923e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 09/17] fix: reject range proofs of more than 256 siblings
 instead of panicking

---
 src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 9a2eb54..622f447 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -675,6 +675,12 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From a35640dd5a35d44a871843ccc97def94294f65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 10/17] fix: finish a restore only with the expected root hash

Finishing before all accounts were received wrote a wrong or dangling tree
(or panicked), and an empty tree could not be restored at all.
---
 src/restore.rs | 59 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..50f165d 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -647,33 +647,46 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Finishes the restoration process. This tells the code that there is no more account,
-    /// otherwise we can not freeze the rightmost leaf and its ancestors.
+    /// otherwise we can not freeze the rightmost leaf and its ancestors. If the accounts received
+    /// do not make up the expected tree, an error is returned and nothing is written to storage.
     fn finish_impl(mut self) -> Result<()> {
-        // Deal with the special case when the entire tree has a single leaf.
-        if self.partial_nodes.len() == 1 {
-            let mut num_children = 0;
-            let mut leaf = None;
-            for i in 0..16 {
-                if let Some(ref child_info) = self.partial_nodes[0].children[i] {
-                    num_children += 1;
-                    if let ChildInfo::Leaf { node } = child_info {
-                        leaf = Some(node.clone());
-                    }
-                }
-            }
+        let root_node_key = NodeKey::new_empty_path(self.version);
+        let root_children = self
+            .partial_nodes
+            .first()
+            .expect("The root node must be partial.")
+            .children
+            .iter()
+            .flatten()
+            .collect::<Vec<_>>();
 
-            if num_children == 1 {
-                if let Some(node) = leaf {
-                    let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
-                    self.frozen_nodes.insert_node(node_key, node.into());
-                    self.store.write_node_batch(&self.frozen_nodes)?;
-                    return Ok(());
-                }
-            }
+        // Deal with the special cases when the entire tree is empty or has a single leaf.
+        let special_root = match root_children[..] {
+            [] => Some(Node::new_null()),
+            [ChildInfo::Leaf { node }] => Some(node.clone().into()),
+            _ => None,
+        };
+
+        if let Some(root_node) = special_root {
+            self.frozen_nodes
+                .insert_node(root_node_key.clone(), root_node);
+        } else {
+            self.freeze(0);
         }
 
-        self.freeze(0);
+        let root_hash = self
+            .frozen_nodes
+            .nodes()
+            .get(&root_node_key)
+            .expect("The root node must have been frozen.")
+            .hash::<H>();
+        ensure!(
+            root_hash == self.expected_root_hash.0,
+            "The accounts received make up a tree with root hash {:?}, expected {:?}.",
+            RootHash(root_hash),
+            self.expected_root_hash,
+        );
+
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From e37a2c828a77ec85cb7babd945ab9fd77251f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 11/17] fix: refuse restores and accounts that do not fit the
 stored nodes

Resuming over a completed restore or another version, and accounts that
fall below a node restored completely before, panicked.
---
 src/restore.rs | 60 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 50f165d..2b4d989 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -166,9 +166,21 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         expected_root_hash: RootHash,
     ) -> Result<Self> {
         let tree_reader = Arc::clone(&store);
+        ensure!(
+            tree_reader
+                .get_node_option(&NodeKey::new_empty_path(version))?
+                .is_none(),
+            "Version {} has already been restored.",
+            version,
+        );
         let (partial_nodes, previous_leaf) =
             if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
-                // TODO: confirm rightmost leaf is at the desired version
+                ensure!(
+                    node_key.version() == version,
+                    "The storage holds leaves of version {}, cannot restore version {}.",
+                    node_key.version(),
+                    version,
+                );
                 // If the system crashed in the middle of the previous restoration attempt, we need
                 // to recover the partial nodes to the state right before the crash.
                 (
@@ -303,9 +315,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
-
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -320,15 +331,20 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         Ok(())
     }
 
-    /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    /// Restores one account. Returns an error without adding it if no tree consistent with the
+    /// nodes that are already in storage has this account.
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Account key {:?} is below a node that has been restored completely.",
+                new_key,
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -348,14 +364,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -371,6 +387,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -383,7 +401,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -436,7 +454,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -453,12 +471,30 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
+        // The lowest node recovered from storage may still wait for its second leaf.
+        if self.partial_nodes.len() > num_remaining_partial_nodes {
+            let lowest_node = self.partial_nodes.last().expect("This node must exist.");
+            let mut children = lowest_node.children.iter().flatten();
+            ensure!(
+                !matches!(
+                    (children.next(), children.next()),
+                    (Some(ChildInfo::Leaf { .. }), None)
+                ),
+                "The node at {:?} must have more leaves than one.",
+                lowest_node.node_key,
+            );
+        }
+
         self.freeze_previous_leaf();
         self.freeze_internal_nodes(num_remaining_partial_nodes);
+
+        Ok(())
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -671,7 +707,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             self.frozen_nodes
                 .insert_node(root_node_key.clone(), root_node);
         } else {
-            self.freeze(0);
+            self.freeze(0)?;
         }
 
         let root_hash = self
-- 
2.43.0


From 78aede871da640017d5aa930d4aad18ba3c42fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 12/17] fix: find the latest version by its root when appending

The version of the rightmost leaf is usually older than the latest version,
so appending to the latest version was refused and to an older one accepted.
---
 src/tree_cache.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 6469977..2779a5a 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -197,16 +197,16 @@ where
     /// increasing the tree version's number.
     pub fn new_overwrite(reader: &'a R, current_version: Version) -> Result<Self> {
         let node_cache = HashMap::new();
-        let Some((node_key, _)) = reader.get_rightmost_leaf()? else {
-            bail!("creating an overwrite cache for an empty tree is not supported")
-        };
+        let root_node_key = NodeKey::new_empty_path(current_version);
+        let next_root_node_key = NodeKey::new_empty_path(current_version.wrapping_add(1));
 
+        // The root is the one node that every version has of its own.
         anyhow::ensure!(
-            node_key.version() == current_version,
+            reader.get_node_option(&root_node_key)?.is_some()
+                && reader.get_node_option(&next_root_node_key)?.is_none(),
             "the supplied version is not the latest version of the tree"
         );
 
-        let root_node_key = NodeKey::new_empty_path(current_version);
         Ok(Self {
             node_cache,
             stale_node_index_cache: HashSet::new(),
-- 
2.43.0


From c4cedc53c61e4b29a98596e434e65e63a31f4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 13/17] fix: do not record nodes as stale that an append
 replaces in place

Pruning deleted nodes the appended version still uses, deleting from an empty
version twice panicked, and nodes removed by the append could be read again.
---
 src/tree_cache.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 2779a5a..8c99744 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -139,6 +139,11 @@ pub struct TreeCache<'a, R> {
     /// # of leaves in the `stale_node_index_cache`,
     num_stale_leaves: usize,
 
+    /// Nodes in the storage that have the version being written, because that version is being
+    /// overwritten, and that it does not use any more. There is no stale record for them: this or
+    /// another overwrite of the version may put a node there again.
+    replaced_nodes: HashSet<NodeKey>,
+
     /// The immutable part of this cache, which will be committed to the underlying storage.
     frozen_cache: FrozenTreeCache,
 
@@ -182,6 +187,7 @@ where
             root_node_key,
             next_version,
             reader,
+            replaced_nodes: HashSet::new(),
             num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
@@ -214,6 +220,7 @@ where
             root_node_key,
             next_version: current_version,
             reader,
+            replaced_nodes: HashSet::new(),
             num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
@@ -226,6 +233,8 @@ where
             node.clone()
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             node.clone()
+        } else if self.replaced_nodes.contains(node_key) {
+            bail!("Missing node at {:?}.", node_key)
         } else {
             self.reader.get_node(node_key)?
         })
@@ -238,6 +247,8 @@ where
             Some(node.clone())
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             Some(node.clone())
+        } else if self.replaced_nodes.contains(node_key) {
+            None
         } else {
             self.reader.get_node_option(node_key)?
         })
@@ -276,6 +287,13 @@ where
         // If node cache doesn't have this node, it means the node is in the previous version of
         // the tree on the disk.
         if self.node_cache.remove(old_node_key).is_none() {
+            // A node of the version being written can only be on the disk when that version is
+            // being overwritten.
+            if old_node_key.version() == self.next_version {
+                let is_new_entry = self.replaced_nodes.insert(old_node_key.clone());
+                assert!(is_new_entry, "Node gets replaced twice unexpectedly.");
+                return;
+            }
             let is_new_entry = self.stale_node_index_cache.insert(old_node_key.clone());
             assert!(is_new_entry, "Node gets stale twice unexpectedly.");
             if is_leaf {
@@ -352,6 +370,7 @@ where
             );
 
         // Clean up
+        self.replaced_nodes.clear();
         self.num_stale_leaves = 0;
         self.num_new_leaves = 0;
 
-- 
2.43.0


From 31aa326cbf97d4167fefa18a4dc0991384ea2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 14/17] fix: leave the mock store unchanged when it refuses a
 write

A batch or leaf that was refused had replaced nodes or written part of its
contents before the check failed.
---
 src/mock.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 536efc6..a3ce918 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -98,12 +98,18 @@ impl HasPreimage for MockTreeStore {
 impl TreeWriter for MockTreeStore {
     fn write_node_batch(&self, node_batch: &NodeBatch) -> Result<()> {
         let mut locked = self.data.write();
-        for (node_key, node) in node_batch.nodes() {
-            let replaced = locked.nodes.insert(node_key.clone(), node.clone());
-            if !self.allow_overwrite {
-                assert_eq!(replaced, None);
+        // Check everything first, so that a batch that is refused changes nothing.
+        if !self.allow_overwrite {
+            for node_key in node_batch.nodes().keys() {
+                assert_eq!(locked.nodes.get(node_key), None);
             }
         }
+        for (version, key_hash) in node_batch.values().keys() {
+            ensure_in_order(&locked.value_history, *version, key_hash)?;
+        }
+        for (node_key, node) in node_batch.nodes() {
+            locked.nodes.insert(node_key.clone(), node.clone());
+        }
         for ((version, key_hash), value) in node_batch.values() {
             put_value(
                 &mut locked.value_history,
@@ -116,6 +122,20 @@ impl TreeWriter for MockTreeStore {
     }
 }
 
+/// Check that a value of this version may be pushed.
+fn ensure_in_order(
+    value_history: &HashMap<KeyHash, Vec<(Version, Option<OwnedValue>)>>,
+    version: Version,
+    key: &KeyHash,
+) -> Result<()> {
+    let last = value_history.get(key).and_then(|history| history.last());
+    ensure!(
+        last.map_or(true, |(last_version, _)| version >= *last_version),
+        "values must be pushed in order"
+    );
+    Ok(())
+}
+
 /// Place a value into the provided value history map. Versions must be pushed in non-decreasing order per key.
 pub fn put_value(
     value_history: &mut HashMap<KeyHash, Vec<(Version, Option<OwnedValue>)>>,
@@ -157,6 +177,7 @@ impl MockTreeStore {
         let key_hash = leaf.key_hash();
         let version = node_key.version();
         let mut locked = self.data.write();
+        ensure_in_order(&locked.value_history, version, &key_hash)?;
         match locked.nodes.entry(node_key) {
             Entry::Occupied(o) => bail!("Key {:?} exists.", o.key()),
             Entry::Vacant(v) => {
@@ -180,6 +201,12 @@ impl MockTreeStore {
     }
 
     pub fn write_tree_update_batch(&self, batch: TreeUpdateBatch) -> Result<()> {
+        ensure!(
+            batch
+                .stale_node_index_batch
+                .is_disjoint(&self.data.read().stale_nodes),
+            "Duplicated retire log."
+        );
         self.write_node_batch(&batch.node_batch)?;
         batch
             .stale_node_index_batch
-- 
2.43.0


From 59dffb18df5b792d8e9d41f55f56104ea277de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 15/17] fix: report a root that cannot be read as a read
 failure

A failing read of the root of a version made reads with proof and
exclusion queries report that the version is missing, 'probably pruned'.
Only a root that is absent means that.
---
 src/tree.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index dbc7ff1..03143a3 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -1004,13 +1004,11 @@ where
         // We limit the number of loops here deliberately to avoid potential cyclic graph bugs
         // in the tree structure.
         for nibble_depth in 0..=ROOT_NIBBLE_HEIGHT {
-            let next_node = self.reader.get_node(&next_node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let next_node = match self.reader.get_node_option(&next_node_key)? {
+                Some(node) => node,
+                None if nibble_depth == 0 => bail!(MissingRootError { version }),
+                None => bail!("Missing node at {:?}.", next_node_key),
+            };
             match next_node {
                 Node::Internal(internal_node) => {
                     let queried_child_index = nibble_iter
@@ -1124,13 +1122,11 @@ where
         let mut internal_nodes = vec![];
 
         for nibble_depth in 0..=ROOT_NIBBLE_HEIGHT {
-            let next_node = self.reader.get_node(&next_node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let next_node = match self.reader.get_node_option(&next_node_key)? {
+                Some(node) => node,
+                None if nibble_depth == 0 => bail!(MissingRootError { version }),
+                None => bail!("Missing node at {:?}.", next_node_key),
+            };
 
             match next_node {
                 Node::Internal(node) => {
-- 
2.43.0


From 357539ba9fbe7ad161dabd0ddb7405daf45407ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 16/17] fix: compute an update from its base even when later
 versions are stored already

---
 src/tree_cache.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 8c99744..4b4202e 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -144,6 +144,10 @@ pub struct TreeCache<'a, R> {
     /// another overwrite of the version may put a node there again.
     replaced_nodes: HashSet<NodeKey>,
 
+    /// Nodes of this and later versions that are in the storage are not part of this update's
+    /// tree: another update from the same base, or one on top of that, has put them there.
+    first_new_version: Version,
+
     /// The immutable part of this cache, which will be committed to the underlying storage.
     frozen_cache: FrozenTreeCache,
 
@@ -188,6 +192,7 @@ where
             next_version,
             reader,
             replaced_nodes: HashSet::new(),
+            first_new_version: next_version,
             num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
@@ -221,6 +226,7 @@ where
             next_version: current_version,
             reader,
             replaced_nodes: HashSet::new(),
+            first_new_version: current_version.saturating_add(1),
             num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
@@ -233,7 +239,7 @@ where
             node.clone()
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             node.clone()
-        } else if self.replaced_nodes.contains(node_key) {
+        } else if self.is_hidden(node_key) {
             bail!("Missing node at {:?}.", node_key)
         } else {
             self.reader.get_node(node_key)?
@@ -247,13 +253,24 @@ where
             Some(node.clone())
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             Some(node.clone())
-        } else if self.replaced_nodes.contains(node_key) {
+        } else if self.is_hidden(node_key) {
             None
         } else {
             self.reader.get_node_option(node_key)?
         })
     }
 
+    /// Whether a node is not part of this update's tree although it may be in the storage. Nodes
+    /// of the genesis version stay visible when it is computed again, so that doing so with
+    /// nothing but deletes gives a batch that a storage holding that version accepts.
+    fn is_hidden(&self, node_key: &NodeKey) -> bool {
+        let version = node_key.version();
+        (self.first_new_version > 0
+            && version >= self.first_new_version
+            && version != PRE_GENESIS_VERSION)
+            || self.replaced_nodes.contains(node_key)
+    }
+
     /// Gets the current root node key.
     pub fn get_root_node_key(&self) -> &NodeKey {
         &self.root_node_key
-- 
2.43.0


From 6aaa4ebf7acf325ec75f78c518ebad9f33cda5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:16 +0000
Subject: [PATCH 17/17] fix: an update computed from version 0 sees no nodes of
 the versions behind it

---
 src/tree_cache.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 4b4202e..fc0a090 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -265,9 +265,7 @@ where
     /// nothing but deletes gives a batch that a storage holding that version accepts.
     fn is_hidden(&self, node_key: &NodeKey) -> bool {
         let version = node_key.version();
-        (self.first_new_version > 0
-            && version >= self.first_new_version
-            && version != PRE_GENESIS_VERSION)
+        (version > 0 && version >= self.first_new_version && version != PRE_GENESIS_VERSION)
             || self.replaced_nodes.contains(node_key)
     }
 
-- 
2.43.0

