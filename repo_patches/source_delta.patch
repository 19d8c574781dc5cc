From 43a610572cb9464c903954e0972cc1fee2ddcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 01/10] fix: keep the default identifier's removed bytes when
 adding basic to sectioned removal

Add took the default identifier's epoch map out of the sectioned removal,
added to it and dropped it, losing all bytes removed for that identifier.
---
 costs/src/storage_cost/removal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..e524fef 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
-- 
2.43.0


From be770713f3cca7fa710ce19641a1dfb11d331661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 02/10] fix: do not let proof nodes attached below an opaque
 hash go unhashed

A proof of the form [KV(key, forged), Hash(root), Parent] verified against
any root, because the hash of a Hash node ignored its children.
---
 merk/src/proofs/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..3579531 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -127,6 +127,11 @@ impl Tree {
         }
 
         match &self.node {
+            // An opaque hash does not cover anything attached below it: take
+            // attached children in, or a proof could hang forged nodes there.
+            Node::Hash(hash) if self.left.is_some() || self.right.is_some() => {
+                compute_hash(self, *hash)
+            }
             Node::Hash(hash) => (*hash).wrap_with_cost(Default::default()),
             Node::KVHash(kv_hash) => compute_hash(self, *kv_hash),
             Node::KV(key, value) => kv_hash(key.as_slice(), value.as_slice())
-- 
2.43.0


From ed2a89d4f1f6fdf86290ef2fbf41ef6c2b235d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 03/10] fix: no positions for inclusive ranges over an empty
 dense tree

RangeInclusive and RangeToInclusive asked for position 0 of a tree without
entries, so that proving and verifying such a query failed.
---
 .../src/proof/mod.rs                                 | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..759d6f4 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -67,8 +67,10 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
                 let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
-                    positions.insert(p);
+                if count > 0 {
+                    for p in start..=clamped_end {
+                        positions.insert(p);
+                    }
                 }
             }
             QueryItem::RangeFull(..) => {
@@ -91,8 +93,10 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
                 let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
-                    positions.insert(p);
+                if count > 0 {
+                    for p in 0..=clamped_end {
+                        positions.insert(p);
+                    }
                 }
             }
             QueryItem::RangeAfter(r) => {
-- 
2.43.0


From e50420cad3e7570443433624cb06cc451f5ec5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 04/10] fix: do not allocate what a chunk operation's length
 announces

A few bytes announcing a huge number of operations or traversal steps made
the decoder reserve that much memory, aborting the process.
---
 merk/src/proofs/chunk/chunk_op.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/merk/src/proofs/chunk/chunk_op.rs b/merk/src/proofs/chunk/chunk_op.rs
index 674e43d..e5c8399 100644
--- a/merk/src/proofs/chunk/chunk_op.rs
+++ b/merk/src/proofs/chunk/chunk_op.rs
@@ -94,20 +94,21 @@ impl Decode for ChunkOp {
 
         match marker[0] {
             0 => {
-                let length = input.read_varint()?;
-                let mut instruction_as_binary = vec![0_u8; length];
-                input.read_exact(&mut instruction_as_binary)?;
-
-                let instruction: Vec<bool> = instruction_as_binary
-                    .into_iter()
-                    .map(|v| v == 1_u8)
-                    .collect();
+                // the announced length is not trusted: memory grows only with
+                // the bytes that are really there
+                let length: usize = input.read_varint()?;
+                let mut instruction: Vec<bool> = Vec::new();
+                for _ in 0..length {
+                    let mut step = [0_u8; 1];
+                    input.read_exact(&mut step)?;
+                    instruction.push(step[0] == 1_u8);
+                }
 
                 *self = ChunkOp::ChunkId(instruction);
             }
             1 => {
-                let ops_length = input.read_varint()?;
-                let mut chunk = Vec::with_capacity(ops_length);
+                let ops_length: usize = input.read_varint()?;
+                let mut chunk = Vec::new();
 
                 for _ in 0..ops_length {
                     let op = Decode::decode(&mut input)?;
-- 
2.43.0


From c6c3fafdfd38846e682ea9c185ba46ea912f2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 05/10] fix: reject MMR proofs whose size would overflow leaf
 positions

---
 grovedb-merkle-mountain-range/src/proof.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..750e0cd 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -344,6 +344,10 @@ pub(crate) fn take_while_vec<T, P: Fn(&T) -> bool>(v: &mut Vec<T>, p: P) -> Vec<
 /// Verified leaf entries: `(leaf_index, value_bytes)` pairs.
 pub type VerifiedLeaves = Vec<(u64, Vec<u8>)>;
 
+/// The largest MMR size a proof may claim: any leaf index of a larger MMR
+/// could overflow `leaf_index_to_pos`.
+const MAX_PROOF_MMR_SIZE: u64 = u64::MAX >> 1;
+
 /// A proof that specific leaves exist in an MMR tree.
 ///
 /// Contains the MMR size, the proved leaf values with their indices,
@@ -479,6 +483,12 @@ impl MmrTreeProof {
 
         // Validate leaf indices to prevent arithmetic overflow in
         // leaf_index_to_pos / leaf_index_to_mmr_size.
+        if self.mmr_size > MAX_PROOF_MMR_SIZE {
+            return Err(Error::InvalidProof(format!(
+                "mmr_size {} exceeds the maximum of {}",
+                self.mmr_size, MAX_PROOF_MMR_SIZE
+            )));
+        }
         let leaf_count = mmr_size_to_leaf_count(self.mmr_size);
         for (idx, _) in &self.leaves {
             if *idx >= leaf_count {
@@ -552,6 +562,12 @@ impl MmrTreeProof {
 
         // Validate leaf indices to prevent arithmetic overflow in
         // leaf_index_to_pos / leaf_index_to_mmr_size.
+        if self.mmr_size > MAX_PROOF_MMR_SIZE {
+            return Err(Error::InvalidProof(format!(
+                "mmr_size {} exceeds the maximum of {}",
+                self.mmr_size, MAX_PROOF_MMR_SIZE
+            )));
+        }
         let leaf_count = mmr_size_to_leaf_count(self.mmr_size);
         for (idx, _) in &self.leaves {
             if *idx >= leaf_count {
-- 
2.43.0


From 38436170569de005fe03941050487fe423c6e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 06/10] fix: reject leftover items in a single-leaf MMR proof

---
 grovedb-merkle-mountain-range/src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index 750e0cd..bbc1ce5 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -268,6 +268,11 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
 
     // special handle the only 1 leaf MMR
     if mmr_size == 1 && leaves.len() == 1 && leaves[0].0 == 0 {
+        if proof_iter.next().is_some() {
+            return Err(Error::InvalidProof(
+                "excess proof items in a single-leaf MMR proof".into(),
+            ));
+        }
         return Ok(leaves.into_iter().map(|(_pos, item)| item).collect());
     }
     // ensure leaves are sorted and unique
-- 
2.43.0


From 387636ee2e4b09012fd4ea5a832255b3ab131240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 07/10] fix: check a queried tree's child hash even when the
 proof adds a lower layer

---
 grovedb/src/operations/proof/verify.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..cb3d725 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -505,6 +505,20 @@ impl GroveDb {
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // Query targets the tree itself, not its contents
+                                    // A lower layer is no substitute for the
+                                    // child hash check on the tree element.
+                                    if element.is_non_empty_merk_tree()
+                                        && !proved_key_value.child_hash_verified
+                                    {
+                                        return Err(Error::InvalidProof(
+                                            query.clone(),
+                                            format!(
+                                                "V1 non-empty tree at key {} without subquery must \
+                                                 use KVValueHashFeatureTypeWithChildHash proof node",
+                                                hex::encode(key),
+                                            ),
+                                        ));
+                                    }
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
                                             path.iter().map(|p| p.to_vec()).collect(),
-- 
2.43.0


From a9a5e9137ccce74d9d08c7b5b2d68c433c73f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 08/10] fix: reject query proofs whose operations run against
 the query direction

---
 merk/src/proofs/query/verify.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..0fe4d58 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -151,7 +151,16 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // Absence is judged from the order in which nodes are pushed, so that order
+        // must be the one of the query: every op has to go in its direction.
+        let ops = decoder.by_ref().map(|op| match op? {
+            op if left_to_right == matches!(op, Op::Push(_) | Op::Parent | Op::Child) => Ok(op),
+            op => Err(Error::InvalidProofError(format!(
+                "Proof operation {op:?} does not match the direction of the query"
+            ))),
+        });
+
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From 52d5e6480ef7ea067b23f1969534445a6118e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 09/10] fix: check empty trees and references of a V1 layer
 even when they are not in the result

---
 grovedb/src/operations/proof/verify.rs | 63 +++++++++++++++-----------
 merk/src/proofs/query/verify.rs        | 14 ++++--
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index cb3d725..de9401e 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,43 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!("V1 unresolved reference at key {}", hex::encode(key)),
+                        ));
+                    }
+
+                    // For empty trees (no lower layer proof), whether they end
+                    // up in the result set or not, verify that the value_hash
+                    // matches combine_hash(H(value), NULL_HASH). Without this
+                    // check, an attacker could swap tree types (e.g.
+                    // SumTree→Tree) or hide a non-empty tree in KVValueHash
+                    // nodes without breaking the merk proof, since the value
+                    // bytes are not part of the KVValueHash tree hash
+                    // computation.
+                    if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && !proved_key_value.child_hash_verified
+                    {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "V1 empty tree value hash mismatch at key {}: expected {}, \
+                                     got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -659,32 +696,6 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // For non-empty Merk trees without a subquery (no
                         // lower layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 0fe4d58..d1445f6 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -399,7 +399,8 @@ impl QueryProofVerify for Query {
                     {
                         println!("Processing KVRefValueHash node");
                     }
-                    execute_node(key, Some(value), *value_hash, false)?;
+                    // The tree hash of this node covers the value.
+                    execute_node(key, Some(value), *value_hash, true)?;
                 }
                 Node::KVCount(key, value, _count) => {
                     #[cfg(feature = "proof_debug")]
@@ -437,7 +438,8 @@ impl QueryProofVerify for Query {
                     {
                         println!("Processing KVRefValueHashCount node");
                     }
-                    execute_node(key, Some(value), *value_hash, false)?;
+                    // The tree hash of this node covers the value.
+                    execute_node(key, Some(value), *value_hash, true)?;
                 }
                 Node::KVValueHashFeatureTypeWithChildHash(
                     key,
@@ -582,9 +584,11 @@ pub struct ProvedKeyOptionalValue {
     pub value: Option<Vec<u8>>,
     /// Proof
     pub proof: CryptoHash,
-    /// Whether the merk verifier confirmed combine_hash(H(value), child_hash)
-    /// == value_hash for this element (true only for
-    /// KVValueHashFeatureTypeWithChildHash nodes).
+    /// Whether the value bytes of a combined value hash are bound to the root
+    /// hash: the merk verifier confirmed combine_hash(H(value), child_hash)
+    /// == value_hash (KVValueHashFeatureTypeWithChildHash nodes), or the tree
+    /// hash was computed from them (KVRefValueHash and KVRefValueHashCount
+    /// nodes).
     pub child_hash_verified: bool,
 }
 
-- 
2.43.0


From c3790d09f38894a22703036aba80549d988256ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 10/10] fix: keep the default identifier's removed bytes in +=
 of basic and sectioned removal

AddAssign took the default identifier's epoch map out of the sectioned
removal, added to it and dropped it, losing all bytes removed for that
identifier (Add was repaired the same way before).
---
 costs/src/storage_cost/removal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index e524fef..ac0f687 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -154,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0

