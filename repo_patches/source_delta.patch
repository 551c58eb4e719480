From a2c985af150ebf3026f14ca7a91decbc9e1d5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 01/21] fix: record the null root of an empty tree under the
 version being frozen

The first update applied to an empty store at a version above 0 that leaves
the tree empty stored the null root one version too early, so the version
just produced had no root and the next update was refused.
---
 jmt/src/tree_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index b5bb97b..ddbd2ad 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -264,7 +264,9 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The null root belongs to the version being frozen.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From 1dc7fc474b817ee97c26be8930a35366e99a2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 02/21] fix: keep the only entry of a single-leaf tree when
 reading it fails once

The iterator marked itself finished before the value was read, so a transient
read error made it skip the entry on the next call.
---
 jmt/src/iterator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jmt/src/iterator.rs b/jmt/src/iterator.rs
index 06a0d43..c1839e7 100644
--- a/jmt/src/iterator.rs
+++ b/jmt/src/iterator.rs
@@ -294,12 +294,14 @@ where
                     // is greater or equal to `starting_key` (otherwise we would have set `done` to
                     // true in `new`). Return the node and mark `self.done` so next time we return
                     // None.
-                    self.done = true;
                     return match self
                         .reader
                         .get_value(root_node_key.version().into(), leaf_node.key_hash())
                     {
-                        Ok(value) => Some(Ok((leaf_node.key_hash(), value))),
+                        Ok(value) => {
+                            self.done = true;
+                            Some(Ok((leaf_node.key_hash(), value)))
+                        }
                         Err(e) => Some(Err(e)),
                     };
                 }
-- 
2.43.0


From c1addd4e06e06bbb918ecb057252f79b077c894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 03/21] fix: look up exclusion-proof neighbours under the
 version they were written at

The neighbouring subtree was fetched under the queried version, so exclusion
and ics23 non-membership proofs failed with a missing node whenever the
neighbour had not been rewritten in that very version.
---
 jmt/src/tree.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..d400fea 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -923,25 +923,25 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +956,15 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        // the neighbor is stored under the version it was last written at
+        let (neighbor, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From 0571d5b9d6294a5e79eaeea9ddbcc66f1cec1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 04/21] fix: refuse range proofs with more than 256 siblings
 instead of panicking

The number of siblings comes from an untrusted proof; above 256 the
subtraction underflowed.
---
 jmt/src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..85ae1ed 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,12 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 9046be56a7d2ce1f3ad96771ed7adf83fb5afdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 05/21] fix: let a snapshot restore be reopened after it has
 completed

A process that dies right after the last write could not tell that the restore
was complete: opening it again failed, or panicked when the tree is a single
leaf. The root is written last, so its presence marks completion.
---
 jmt/src/restore.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..cccdb37 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -166,6 +166,9 @@ pub struct JellyfishMerkleRestore<H: SimpleHasher> {
     /// Whether to use the new internal node format where leaf counts are written.
     leaf_count_migration: bool,
 
+    /// Whether a previous restoration attempt already completed.
+    finished: bool,
+
     _phantom_hasher: PhantomHasher<H>,
 }
 
@@ -177,8 +180,20 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         leaf_count_migration: bool,
     ) -> Result<Self> {
         let tree_reader = Arc::clone(&store);
+        let mut finished = false;
         let (partial_nodes, previous_leaf) =
-            if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
+            if let Some(root_node) =
+                tree_reader.get_node_option(&NodeKey::new_empty_path(version))?
+            {
+                // The root is written last, so a previous restoration attempt ran to completion
+                // and there is nothing left to do.
+                ensure!(
+                    root_node.hash() == expected_root_hash.0,
+                    "Restored root hash doesn't match the expected root hash.",
+                );
+                finished = true;
+                (vec![], None)
+            } else if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
                 // TODO: confirm rightmost leaf is at the desired version
                 // If the system crashed in the middle of the previous restoration attempt, we need
                 // to recover the partial nodes to the state right before the crash.
@@ -208,6 +223,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             num_keys_received: 0,
             expected_root_hash,
             leaf_count_migration,
+            finished,
             _phantom_hasher: Default::default(),
         })
     }
@@ -227,6 +243,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             num_keys_received: 0,
             expected_root_hash,
             leaf_count_migration,
+            finished: false,
             _phantom_hasher: Default::default(),
         })
     }
@@ -313,6 +330,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         chunk: Vec<(KeyHash, OwnedValue)>,
         proof: SparseMerkleRangeProof,
     ) -> Result<()> {
+        if self.finished {
+            return Ok(());
+        }
+
         ensure!(!chunk.is_empty(), "Should not add empty chunks.");
 
         for (key, value) in chunk {
@@ -670,6 +691,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
+        if self.finished {
+            return Ok(());
+        }
+
         // Deal with the special case when the entire tree has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
-- 
2.43.0


From 19a528571719e79cd08bf451eb7389630ab1c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/21] fix: refuse snapshot chunks that do not fit the
 restored part instead of panicking

After a resume, a chunk that skips entries could freeze an internal node whose
only child is a leaf, and an entry falling into a completed subtree hit an
assertion. Chunks are untrusted input, so both have to be errors.
---
 jmt/src/restore.rs | 49 +++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index cccdb37..9c3373f 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -90,7 +90,7 @@ impl InternalInfo {
         mut self,
         version: Version,
         leaf_count_migration: bool,
-    ) -> (NodeKey, InternalNode) {
+    ) -> Result<(NodeKey, InternalNode)> {
         let mut children = Children::new();
 
         // Calling `into_iter` on an array is equivalent to calling `iter`:
@@ -101,10 +101,10 @@ impl InternalInfo {
             }
         }
 
-        (
+        Ok((
             self.node_key,
-            InternalNode::new_migration(children, leaf_count_migration),
-        )
+            InternalNode::new_impl(children, leaf_count_migration)?,
+        ))
     }
 }
 
@@ -346,7 +346,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             let value_hash = ValueHash::with::<H>(value.as_slice());
             self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
+            self.add_one(key, value_hash)?;
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -362,14 +362,18 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // A subtree recovered from storage is complete, no further entry belongs below it.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Account key belongs to a subtree that is already restored.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -389,14 +393,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -412,6 +416,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -424,7 +430,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -477,7 +483,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -494,12 +500,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -534,11 +542,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
     /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
-            let last_node = self.partial_nodes.pop().expect("This node must exist.");
-            let (node_key, internal_node) =
-                last_node.into_internal_node(self.version, self.leaf_count_migration);
+            let last_node = self.partial_nodes.last().expect("This node must exist.");
+            // Entries that don't belong to the snapshot can make this fail.
+            let (node_key, internal_node) = last_node
+                .clone()
+                .into_internal_node(self.version, self.leaf_count_migration)?;
+            self.partial_nodes.pop();
             // Keep the hash of this node before moving it into `frozen_nodes`, so we can update
             // its parent later.
             let node_hash = internal_node.hash();
@@ -571,6 +582,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -719,7 +732,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From b88731605455b7d4f67604365d5585373f996ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 07/21] fix: restructure a branch when its own value is
 removed, and only report a removal that happened

---
 pmt/src/inner.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,19 +528,19 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
+                    let deleted = borrow_branch.value.take().is_some();
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From f5c70d63474d35d8cd5835b891899b43ddd7d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 08/21] fix: keep the nodes an operation passed when it failed
 or removed nothing

---
 pmt/src/inner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..e0f46cc 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,7 +154,11 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+
+        // nodes passed on the way are only replaced if the insertion succeeds
+        let passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        let touched_keys = std::mem::replace(&mut self.passing_keys, passing_keys);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -172,6 +176,7 @@ where
         }
 
         self.root = result?;
+        self.passing_keys.extend(touched_keys);
 
         Ok(())
     }
@@ -180,7 +185,10 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        // nodes passed on the way are only replaced if something is removed
+        let passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        let touched_keys = std::mem::replace(&mut self.passing_keys, passing_keys);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -198,7 +206,10 @@ where
         }
 
         let (n, removed) = result?;
-        self.root = n;
+        if removed {
+            self.root = n;
+            self.passing_keys.extend(touched_keys);
+        }
 
         Ok(removed)
     }
-- 
2.43.0


From 8155bbfb9286f046f2fc457ed2c7eade011ccafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 09/21] fix: keep a small root node that is rewritten
 unchanged, and report a missing root on commit

---
 pmt/src/inner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index e0f46cc..84d769c 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -293,6 +293,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
@@ -325,7 +326,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From 420038c9fb1d71cbc85245e0fab920ae91615f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 10/21] fix: build proofs from a trie opened at a root instead
 of panicking

---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 84d769c..3564de3 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -250,7 +250,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // a root that has not been loaded is already part of the path
+            Node::Empty | Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From 47c4fe0668429b9781e01483769ea36d51a0e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 11/21] fix: treat an empty path as no leaf, so the empty key
 can be enumerated

---
 pmt/src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From 5454f1bc740e10552ec6b491e8e43178c9e3d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 12/21] fix: report a node whose path cannot be decoded instead
 of panicking

---
 pmt/src/inner.rs   | 11 +++++++++++
 pmt/src/nibbles.rs |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 3564de3..d69b818 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -801,7 +801,18 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                if !Nibbles::is_compact(key) {
+                    return Err(TrieError::InvalidData(
+                        "node path cannot be decoded".to_string(),
+                    ));
+                }
+
                 let key = Nibbles::from_compact(key);
+                if key.is_empty() {
+                    return Err(TrieError::InvalidData(
+                        "extension node has an empty path".to_string(),
+                    ));
+                }
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index f7d966b..41b6418 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -28,6 +28,11 @@ impl Nibbles {
         Nibbles { hex_data }
     }
 
+    /// Checks that the bytes are a path `from_compact` can decode.
+    pub fn is_compact(compact: &[u8]) -> bool {
+        matches!(compact.first(), Some(flag) if flag >> 4 <= 0x3)
+    }
+
     pub fn from_compact(compact: &[u8]) -> Self {
         let mut hex = vec![];
         let flag = compact[0];
-- 
2.43.0


From 298c9becb81243a8567553db7979dd47c549e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 13/21] fix: report the error that cut an enumeration of values
 short

---
 pmt/src/inner.rs         |  8 +++-
 pmt/src/trie_iterator.rs | 84 +++++++++++++++++++++++++++-------------
 2 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index d69b818..7e80a9d 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -96,7 +96,13 @@ where
 
     /// Returns all values stored on the trie.
     pub fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>> {
-        Ok(self.iter().collect())
+        let mut iter = self.iter();
+        let values = iter.by_ref().collect();
+
+        match iter.take_error() {
+            Some(err) => Err(err),
+            None => Ok(values),
+        }
     }
 
     pub fn is_empty(&self) -> bool {
diff --git a/pmt/src/trie_iterator.rs b/pmt/src/trie_iterator.rs
index 7dd6445..d48d8dd 100644
--- a/pmt/src/trie_iterator.rs
+++ b/pmt/src/trie_iterator.rs
@@ -2,7 +2,7 @@
 /// Beware there's a significant amount of TODOs scattered around the file,
 /// these will be addressed in due time.
 ///
-use crate::{db::Database, inner::InnerTrie, nibbles::Nibbles, node::Node};
+use crate::{db::Database, error::TrieError, inner::InnerTrie, nibbles::Nibbles, node::Node};
 
 #[derive(Clone, Debug)]
 enum TraceStatus {
@@ -49,6 +49,7 @@ where
     trie: &'a InnerTrie<D>,
     nibble: Nibbles,
     nodes: Vec<TraceNode>,
+    error: Option<TrieError>,
 }
 
 impl<'a, D> TrieIterator<'a, D>
@@ -62,8 +63,14 @@ where
             trie,
             nibble: Nibbles::from_raw(&[], false),
             nodes,
+            error: None,
         }
     }
+
+    /// Returns the first error that kept the iterator from yielding every entry.
+    pub fn take_error(&mut self) -> Option<TrieError> {
+        self.error.take()
+    }
 }
 
 impl<'a, D> Iterator for TrieIterator<'a, D>
@@ -120,20 +127,28 @@ where
 
                     (TraceStatus::Doing, Node::Hash(ref hash_node)) => {
                         let node_hash = hash_node.hash;
-                        if let Ok(n) = self.trie.recover_from_db(node_hash) {
-                            self.nodes.pop();
-                            match n {
-                                Some(node) => self.nodes.push(node.into()),
-                                None => {
-                                    // TODO: add proper instrumentation
-                                    // warn!("Trie node with hash {:?} is missing from the database.
-                                    // Skipping...", &node_hash);
-                                    continue;
-                                }
+                        let recovered = self.trie.recover_from_db(node_hash);
+                        self.nodes.pop();
+                        match recovered {
+                            Ok(Some(node)) => self.nodes.push(node.into()),
+                            Ok(None) => {
+                                // TODO: add proper instrumentation
+                                // warn!("Trie node with hash {:?} is missing from the database.
+                                // Skipping...", &node_hash);
+                                self.error.get_or_insert(TrieError::MissingTrieNode {
+                                    node_hash,
+                                    traversed: Some(self.nibble.clone()),
+                                    root_hash: None,
+                                    err_key: None,
+                                });
+                                continue;
+                            }
+                            Err(err) => {
+                                //error!();
+                                self.error.get_or_insert(err);
+                                self.nodes.clear();
+                                return None;
                             }
-                        } else {
-                            //error!();
-                            return None;
                         }
                     }
 
@@ -168,6 +183,7 @@ where
     trie: InnerTrie<D>,
     nibble: Nibbles,
     nodes: Vec<TraceNode>,
+    error: Option<TrieError>,
 }
 
 impl<D> OwnedTrieIterator<D>
@@ -181,8 +197,14 @@ where
             trie,
             nibble: Nibbles::from_raw(&[], false),
             nodes,
+            error: None,
         }
     }
+
+    /// Returns the first error that kept the iterator from yielding every entry.
+    pub fn take_error(&mut self) -> Option<TrieError> {
+        self.error.take()
+    }
 }
 
 impl<D> Iterator for OwnedTrieIterator<D>
@@ -239,20 +261,28 @@ where
 
                     (TraceStatus::Doing, Node::Hash(ref hash_node)) => {
                         let node_hash = hash_node.hash;
-                        if let Ok(n) = self.trie.recover_from_db(node_hash) {
-                            self.nodes.pop();
-                            match n {
-                                Some(node) => self.nodes.push(node.into()),
-                                None => {
-                                    // TODO: add proper instrumentation
-                                    // warn!("Trie node with hash {:?} is missing from the database.
-                                    // Skipping...", &node_hash);
-                                    continue;
-                                }
+                        let recovered = self.trie.recover_from_db(node_hash);
+                        self.nodes.pop();
+                        match recovered {
+                            Ok(Some(node)) => self.nodes.push(node.into()),
+                            Ok(None) => {
+                                // TODO: add proper instrumentation
+                                // warn!("Trie node with hash {:?} is missing from the database.
+                                // Skipping...", &node_hash);
+                                self.error.get_or_insert(TrieError::MissingTrieNode {
+                                    node_hash,
+                                    traversed: Some(self.nibble.clone()),
+                                    root_hash: None,
+                                    err_key: None,
+                                });
+                                continue;
+                            }
+                            Err(err) => {
+                                //error!();
+                                self.error.get_or_insert(err);
+                                self.nodes.clear();
+                                return None;
                             }
-                        } else {
-                            //error!();
-                            return None;
                         }
                     }
 
-- 
2.43.0


From 1d0c91266814b5c65aaaf87c9ea30f40151855fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 14/21] fix: wait for a concurrent writer instead of panicking
 or returning no values

---
 pmt/src/db.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pmt/src/db.rs b/pmt/src/db.rs
index 88171ed..e744add 100644
--- a/pmt/src/db.rs
+++ b/pmt/src/db.rs
@@ -110,20 +110,18 @@ impl Database for MemoryDB {
     }
 
     fn len(&self) -> Result<usize, Self::Error> {
-        Ok(self.storage.try_read().unwrap().len())
+        Ok(self.storage.read().len())
     }
 
     fn is_empty(&self) -> Result<bool, Self::Error> {
-        Ok(self.storage.try_read().unwrap().is_empty())
+        Ok(self.storage.read().is_empty())
     }
 
     fn values(&self) -> Result<Vec<(Vec<u8>, OwnedValue)>, Self::Error> {
         let mut values = Vec::new();
 
-        if let Some(handle) = self.storage.try_read() {
-            for (k, v) in handle.iter() {
-                values.push((k.clone(), v.clone()));
-            }
+        for (k, v) in self.storage.read().iter() {
+            values.push((k.clone(), v.clone()));
         }
 
         Ok(values)
-- 
2.43.0


From 80dfcc4ebe8c3a5198c3b577400f0dfdf28f8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 15/21] fix: refuse to finish a snapshot restore whose root
 does not match the expected one

---
 jmt/src/restore.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 9c3373f..2deb356 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -726,13 +726,26 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     let node_key = NodeKey::new_empty_path(self.version);
                     assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
-                    self.store.write_node_batch(&self.frozen_nodes)?;
-                    return Ok(());
+                    return self.write_root();
                 }
             }
         }
 
         self.freeze(0)?;
+        self.write_root()
+    }
+
+    /// Writes the last nodes, among them the root, provided that all chunks have arrived.
+    fn write_root(&self) -> Result<()> {
+        let root_hash = self
+            .frozen_nodes
+            .get_node(&NodeKey::new_empty_path(self.version))
+            .map(|root_node| root_node.hash());
+        ensure!(
+            root_hash == Some(self.expected_root_hash.0),
+            "Restored root hash doesn't match the expected root hash.",
+        );
+
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From ef4c7d0b6704d1b2e4e21a23e460536810214aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 16/21] fix: leave nothing of a refused snapshot chunk in the
 restore state

---
 jmt/src/restore.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 2deb356..4e418e9 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -336,6 +336,28 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
         ensure!(!chunk.is_empty(), "Should not add empty chunks.");
 
+        // Nothing of a chunk that turns out to be invalid may stay behind.
+        let partial_nodes = self.partial_nodes.clone();
+        let frozen_nodes = self.frozen_nodes.clone();
+        let previous_leaf = self.previous_leaf.clone();
+        let num_keys_received = self.num_keys_received;
+
+        let result = self.add_entries(chunk, proof);
+        if result.is_err() {
+            self.partial_nodes = partial_nodes;
+            self.frozen_nodes = frozen_nodes;
+            self.previous_leaf = previous_leaf;
+            self.num_keys_received = num_keys_received;
+        }
+        result
+    }
+
+    /// Adds the entries of a chunk, verifies the result and writes what is complete to storage.
+    fn add_entries(
+        &mut self,
+        chunk: Vec<(KeyHash, OwnedValue)>,
+        proof: SparseMerkleRangeProof,
+    ) -> Result<()> {
         for (key, value) in chunk {
             if let Some(ref prev_leaf) = self.previous_leaf {
                 ensure!(
-- 
2.43.0


From 443c2264c3990623dc4f45ddbbdf313efa182b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 17/21] fix: delete the former root from a database that
 deletes replaced nodes

---
 pmt/src/inner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 7e80a9d..a2310d6 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -317,6 +317,11 @@ where
             .insert_batch(keys, values)
             .map_err(|e| TrieError::Database(e.to_string()))?;
 
+        // the former root is replaced like any other node
+        if root_hash != self.root_hash {
+            self.passing_keys.insert(self.root_hash.as_bytes().to_vec());
+        }
+
         let removed_keys: Vec<Vec<u8>> = self
             .passing_keys
             .iter()
-- 
2.43.0


From 418c154c72ebfdc7f77679dc49a2195ee7ef9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 18/21] fix: an update without effect on top of a pre-genesis
 state left the first version without a root

---
 jmt/src/tree_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index ddbd2ad..f380028 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -283,7 +283,8 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        // This also applies to the first version if it is based on a pre-genesis state.
+        if (self.next_version > 0 || root_node_key.version() == PRE_GENESIS_VERSION)
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0


From 724a98c9bdf238e53d258f195c4930a7041abbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:33 +0000
Subject: [PATCH 19/21] fix: the snapshot of an empty tree can be restored

---
 jmt/src/restore.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 4e418e9..bfe9532 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -751,6 +751,13 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     return self.write_root();
                 }
             }
+
+            // Nor does an empty tree have anything to freeze, its root is the null node.
+            if num_children == 0 {
+                self.frozen_nodes
+                    .insert_node(NodeKey::new_empty_path(self.version), Node::new_null());
+                return self.write_root();
+            }
         }
 
         self.freeze(0)?;
-- 
2.43.0


From ea1df556b6915d37b6a2d0038ee36a5e42d03060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:59 +0000
Subject: [PATCH 20/21] fix: report a node whose path or value cannot be
 decoded instead of misreading it

---
 pmt/src/inner.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index a2310d6..ad77bb3 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -811,14 +811,14 @@ where
         match r.prototype()? {
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
-                let key = r.at(0)?.data()?;
-                if !Nibbles::is_compact(key) {
+                let key: Vec<u8> = r.val_at(0)?;
+                if !Nibbles::is_compact(&key) {
                     return Err(TrieError::InvalidData(
                         "node path cannot be decoded".to_string(),
                     ));
                 }
 
-                let key = Nibbles::from_compact(key);
+                let key = Nibbles::from_compact(&key);
                 if key.is_empty() {
                     return Err(TrieError::InvalidData(
                         "extension node has an empty path".to_string(),
@@ -826,7 +826,7 @@ where
                 }
 
                 if key.is_leaf() {
-                    Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
+                    Ok(Node::from_leaf(key, r.val_at(1)?))
                 } else {
                     let n = self.decode_node(r.at(1)?.as_raw())?;
 
@@ -843,12 +843,8 @@ where
                 }
 
                 // The last element is a value node.
-                let value_rlp = r.at(16)?;
-                let value = if value_rlp.is_empty() {
-                    None
-                } else {
-                    Some(value_rlp.data()?.to_vec())
-                };
+                let value: Vec<u8> = r.val_at(16)?;
+                let value = if value.is_empty() { None } else { Some(value) };
 
                 Ok(Node::from_branch(nodes, value))
             }
-- 
2.43.0


From 09edb52502fc141719858c18d4fe4753b3fd22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:59 +0000
Subject: [PATCH 21/21] fix: report a record that holds no node instead of
 following it for ever or reading it as absence

---
 pmt/src/inner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ad77bb3..0507dd9 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -870,7 +870,18 @@ where
             Some(value) => Some(self.decode_node(&value)?),
             None => None,
         };
-        Ok(node)
+
+        // References are only found inside other nodes, and nothing but the root of an empty
+        // trie is stored as an empty node.
+        match node {
+            Some(Node::Hash(_)) => Err(TrieError::InvalidData(
+                "stored node is only a reference".to_string(),
+            )),
+            Some(Node::Empty) if key != keccak(&rlp::NULL_RLP) => Err(TrieError::InvalidData(
+                "stored node is empty".to_string(),
+            )),
+            node => Ok(node),
+        }
     }
 }
 
-- 
2.43.0

