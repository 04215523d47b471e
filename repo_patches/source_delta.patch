From 7db4403c851c28b6e6cebf767cdddc3509d35991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 01/28] fix: reject MMR proofs that leave out or add right-hand
 peaks

A proof could omit the peaks to the right of the last proved leaf (or append
an extra one), which let an internal node be passed off as a leaf of a larger
tree: the recomputed root was then the genuine one. Every peak must now be
accounted for, with exactly one item for the peaks right of the last leaf.
---
 grovedb-merkle-mountain-range/src/proof.rs | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..c0a1604 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -275,8 +275,13 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     leaves.dedup_by(|a, b| a.0 == b.0);
     let peaks = get_peaks(mmr_size);
 
-    let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    let mut missing_peak = false;
+    let has_leaves = !leaves.is_empty();
+    let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len());
     for peak_pos in peaks {
+        // once every leaf is consumed, a single proof item stands for all the
+        // remaining peaks (the last peak itself, or the bagged right peaks)
+        let rhs_bagged = has_leaves && leaves.is_empty();
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
             // leaf is the peak
@@ -286,25 +291,27 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
             if let Some(peak_root) = proof_iter.next() {
                 peak_root.clone()
             } else {
-                // means that either all right peaks are bagged, or proof is corrupted
-                // so we break loop and check no items left
+                missing_peak = true;
                 break;
             }
         } else {
             calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
         };
-        peaks_hashes.push(peak_root.clone());
+        peaks_hashes.push(peak_root);
+        if rhs_bagged {
+            break;
+        }
     }
 
     // ensure nothing left in leaves
     if !leaves.is_empty() {
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
-
-    // check rhs peaks
-    if let Some(rhs_peaks_hashes) = proof_iter.next() {
-        peaks_hashes.push(rhs_peaks_hashes.clone());
+    // ensure no peak was left out
+    if missing_peak {
+        return Err(Error::InvalidProof("not enough proof items for peaks".into()));
     }
+
     // ensure nothing left in proof_iter
     if proof_iter.next().is_some() {
         return Err(Error::InvalidProof(
-- 
2.43.0


From e58cfe110605b9a6fb79d93fe7ac1fb82e11c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 02/28] fix: keep the default identifier's sections when adding
 removed bytes

Adding a basic removal to a sectioned one (either way round) took the section
map of the default identifier out of the result, updated it and then dropped
it, so those removed bytes vanished from the sum.
---
 costs/src/storage_cost/removal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..e524fef 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
-- 
2.43.0


From 40b4e50aa35fefb1dc19e15a31a0de0acd07afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 03/28] fix: select nothing when a dense tree query runs over
 an empty tree

With a count of 0 an inclusive range starting at 0 selected position 0, which
does not exist, so the honest answer for an empty tree was rejected.
---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..ab97bfd 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -66,8 +66,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                let clamped_end = end.saturating_add(1).min(count);
+                for p in start..clamped_end {
                     positions.insert(p);
                 }
             }
@@ -90,8 +90,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                let clamped_end = end.saturating_add(1).min(count);
+                for p in 0..clamped_end {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From f5f05739be33b0c6ffb23805d5085486cd086abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 04/28] fix: make QueryItem's serde round trip

Deserialize expected snake_case variant names while Serialize (and VARIANTS)
use PascalCase, so self-describing formats could not read back what was
written, and RangeFull left its unit payload unread. snake_case names are still
accepted.
---
 grovedb-query/src/query_item/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 6525f2a..15708cb 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -131,17 +131,27 @@ impl<'de> Deserialize<'de> for QueryItem {
         D: Deserializer<'de>,
     {
         #[derive(Deserialize)]
-        #[serde(field_identifier, rename_all = "snake_case")]
+        #[serde(variant_identifier)]
         enum Field {
+            #[serde(alias = "key")]
             Key,
+            #[serde(alias = "range")]
             Range,
+            #[serde(alias = "range_inclusive")]
             RangeInclusive,
+            #[serde(alias = "range_full")]
             RangeFull,
+            #[serde(alias = "range_from")]
             RangeFrom,
+            #[serde(alias = "range_to")]
             RangeTo,
+            #[serde(alias = "range_to_inclusive")]
             RangeToInclusive,
+            #[serde(alias = "range_after")]
             RangeAfter,
+            #[serde(alias = "range_after_to")]
             RangeAfterTo,
+            #[serde(alias = "range_after_to_inclusive")]
             RangeAfterToInclusive,
         }
 
@@ -173,7 +183,10 @@ impl<'de> Deserialize<'de> for QueryItem {
                         let range_inclusive = variant_access.newtype_variant()?;
                         Ok(QueryItem::RangeInclusive(range_inclusive))
                     }
-                    Field::RangeFull => Ok(QueryItem::RangeFull(RangeFull)),
+                    Field::RangeFull => {
+                        variant_access.unit_variant()?;
+                        Ok(QueryItem::RangeFull(RangeFull))
+                    }
                     Field::RangeFrom => {
                         let range_from = variant_access.newtype_variant()?;
                         Ok(QueryItem::RangeFrom(range_from))
-- 
2.43.0


From ca25c092a7bf1033391dc7ed76d99473bba4aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 05/28] fix: tie the direction of merk proof operations to the
 query direction

Key order was only checked between neighbouring pushes of the same kind, so a
proof mixing ascending and descending operations, or an ascending proof for a
right-to-left query, could hash to the genuine root while skipping a key,
making an existing key look absent. A proof must now be uniformly ascending or
descending, and match the direction of the query it answers.
---
 merk/src/proofs/query/verify.rs | 16 ++++++++++++++--
 merk/src/proofs/tree.rs         | 22 +++++++++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..4844ca3 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -7,7 +7,11 @@ use grovedb_element::ElementType;
 use crate::proofs::query::{Map, MapBuilder};
 use crate::{
     error::Error,
-    proofs::{hex_to_ascii, tree::execute, Decoder, Node, Op, Query},
+    proofs::{
+        hex_to_ascii,
+        tree::{execute, op_is_inverted},
+        Decoder, Node, Op, Query,
+    },
     tree::{combine_hash, value_hash},
     CryptoHash as MerkHash, CryptoHash,
 };
@@ -151,7 +155,15 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // absence is concluded from neighbouring pushes, so the proof has to be
+        // in the direction the query is walked in
+        let ops = decoder.by_ref().map(|op| match op {
+            Ok(op) if op_is_inverted(&op) == left_to_right => Err(Error::InvalidProofError(
+                "Proof direction does not match query direction".to_string(),
+            )),
+            op => op,
+        });
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..737e047 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -484,6 +484,15 @@ pub const MAX_PROOF_STACK_DEPTH: usize = 10_000;
 /// Proof subtrees should never be deeper than the backing Merk tree.
 pub const MAX_PROOF_TREE_HEIGHT: usize = 92;
 
+/// Whether the operation belongs to a descending (right to left) proof.
+#[cfg(any(feature = "minimal", feature = "verify"))]
+pub(crate) fn op_is_inverted(op: &Op) -> bool {
+    match op {
+        Op::Push(_) | Op::Parent | Op::Child => false,
+        Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted => true,
+    }
+}
+
 #[cfg(any(feature = "minimal", feature = "verify"))]
 /// Executes a proof by stepping through its operators, modifying the
 /// verification stack as it goes. The resulting stack item is returned.
@@ -509,6 +518,7 @@ where
 
     let mut stack: Vec<Tree> = Vec::with_capacity(32);
     let mut maybe_last_key = None;
+    let mut maybe_inverted = None;
     let mut op_count: usize = 0;
 
     fn try_pop(stack: &mut Vec<Tree>) -> Result<Tree, Error> {
@@ -526,7 +536,17 @@ where
             )))
             .wrap_with_cost(cost);
         }
-        match cost_return_on_error_no_add!(cost, op) {
+        let op = cost_return_on_error_no_add!(cost, op);
+        // A proof visits the tree in one direction only: the order of the
+        // pushed keys says nothing about the tree once directions are mixed
+        let inverted = op_is_inverted(&op);
+        if *maybe_inverted.get_or_insert(inverted) != inverted {
+            return Err(Error::InvalidProofError(
+                "Proof mixes ascending and descending operations".to_string(),
+            ))
+            .wrap_with_cost(cost);
+        }
+        match op {
             Op::Parent => {
                 let (mut parent, child) = (
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
-- 
2.43.0


From 145f6b18e35e399618e9a1d85246f7fae37bca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 06/28] fix: bind a tree's value when a V1 proof gives it an
 unqueried lower layer

When the query targets a tree itself but the proof attached a lower layer to
it, the tree element was returned without any check of its value bytes (and
under a path that wrongly ended in its own key).
---
 grovedb/src/operations/proof/verify.rs | 43 +++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..6d4af2e 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -504,7 +504,28 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
+                                    // Query targets the tree itself, not its contents.
+                                    // Nothing below will be checked against the tree,
+                                    // so its value bytes have to be bound here.
+                                    path.pop();
+                                    let lower_hash =
+                                        Self::unqueried_lower_layer_hash(lower_layer, query)?;
+                                    if hash
+                                        != combine_hash(
+                                            value_hash(value_bytes).value(),
+                                            &lower_hash,
+                                        )
+                                        .value()
+                                    {
+                                        return Err(Error::InvalidProof(
+                                            query.clone(),
+                                            format!(
+                                                "V1 mismatch in unqueried lower layer hash at \
+                                                 key {}",
+                                                hex::encode(key)
+                                            ),
+                                        ));
+                                    }
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
                                             path.iter().map(|p| p.to_vec()).collect(),
@@ -738,6 +759,26 @@ impl GroveDb {
         Ok(root_hash)
     }
 
+    /// Root hash of a merk lower layer that the query does not descend into.
+    /// Only its hash is used, none of its contents.
+    fn unqueried_lower_layer_hash(
+        lower_layer: &LayerProof,
+        query: &PathQuery,
+    ) -> Result<CryptoHash, Error> {
+        let ProofBytes::Merk(bytes) = &lower_layer.merk_proof else {
+            return Err(Error::InvalidProof(
+                query.clone(),
+                "V1 proof has a non-Merk lower layer the query does not descend into".to_string(),
+            ));
+        };
+        execute(Decoder::new(bytes), true, |_| Ok(()))
+            .unwrap()
+            .map(|tree| tree.hash().unwrap())
+            .map_err(|e| {
+                Error::InvalidProof(query.clone(), format!("Invalid V1 lower layer: {}", e))
+            })
+    }
+
     /// Verify an MMR lower layer proof and add results.
     /// Returns the computed MMR root hash, which the caller uses as the
     /// child hash for Merk authentication (`combine_hash(value_hash ||
-- 
2.43.0


From 0c3242b57f49112194459465d1dc00d863f44793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 07/28] fix: check that a tree claimed empty in a V1 proof is
 empty

The check was skipped when the query had a subquery for that tree, so a
non-empty tree could be passed off as empty and its whole contents left out of
a verified result.
---
 grovedb/src/operations/proof/verify.rs | 48 ++++++++++++--------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 6d4af2e..16c76ab 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -661,37 +661,33 @@ impl GroveDb {
                                 ));
                             }
                         }
+                    } else if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && hash
+                            != combine_hash(value_hash(value_bytes).value(), &NULL_HASH).value()
+                    {
+                        // For empty trees (no lower layer proof), verify that
+                        // the value_hash matches combine_hash(H(value),
+                        // NULL_HASH), whether or not the tree itself is a
+                        // result. Without this check, an attacker could swap
+                        // tree types (e.g. SumTree→Tree) in KVValueHash nodes,
+                        // or pass a non-empty tree off as empty to hide its
+                        // contents from a subquery, without breaking the merk
+                        // proof, since the value bytes are not part of the
+                        // KVValueHash tree hash computation.
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 empty tree value hash mismatch at key {}: got {}",
+                                hex::encode(key),
+                                hex::encode(hash),
+                            ),
+                        ));
                     } else if element.is_any_item()
                         || !internal_query.has_subquery_or_matching_in_path_on_key(key)
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // For non-empty Merk trees without a subquery (no
                         // lower layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
-- 
2.43.0


From 89ca5b99da3105dad4b200264b0d84eff59aa37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 08/28] fix: reject bare references in V1 proofs

The prover replaces every queried reference by the element it resolves to; a
bare reference in a value-hash node is not bound to the tree, so it could be
put in place of any element, either as a forged result or to have the element
dropped when the query has a subquery.
---
 grovedb/src/operations/proof/verify.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 16c76ab..a13053a 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -683,6 +683,16 @@ impl GroveDb {
                                 hex::encode(hash),
                             ),
                         ));
+                    } else if element.is_reference() {
+                        // References are proved by the element they resolve to
+                        // (KVRefValueHash); a bare one is not bound to the tree.
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 proof has an unresolved reference at key {}",
+                                hex::encode(key)
+                            ),
+                        ));
                     } else if element.is_any_item()
                         || !internal_query.has_subquery_or_matching_in_path_on_key(key)
                             && (options.include_empty_trees_in_result
-- 
2.43.0


From 3b04c6469de1685e10eb22bfc90df9f601adf6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 09/28] fix: recognise a subtree path whose owned segments are
 all gone as root

is_root, is_empty and len disagreed for builders whose owned segments are
an empty list (owned_from_iter over nothing, or derive_parent_owned down to
the root) and for iterator-backed paths derived down to an empty base.
---
 path/src/subtree_path_builder.rs | 11 +++--------
 path/src/subtree_path_iter.rs    |  7 +------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..87682bb 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,8 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        // Owned segments may all have been popped, so variant isn't enough
+        self.len() == 0
     }
 }
 
@@ -332,13 +333,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.is_empty()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..a5b63a4 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,12 +77,7 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
-            && match &self.current_iter {
-                CurrentSubtreePathIter::Single(_) => false,
-                CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-                CurrentSubtreePathIter::OwnedBytes(bytes_iter) => bytes_iter.len() == 0,
-            }
+        self.len() == 0
     }
 }
 
-- 
2.43.0


From 71000a80c47b6b41202662d83fdafd7a95b4df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 10/28] fix: keep the default identifier's sections in
 StorageRemovedBytes::add_assign

basic += sectioned took the default identifier's section map out of the
right-hand side, updated it and dropped it.
---
 costs/src/storage_cost/removal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index e524fef..ac0f687 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -154,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0


From cc5dfc50970308cfd130bdd7c3f94a9c78ab6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 11/28] fix: saturate the total of removed bytes

Every other counter saturates; the total of a sectioned removal overflowed
(a panic in debug builds, a small wrapped total in release builds).
---
 costs/src/storage_cost/removal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ac0f687..3814b24 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -235,8 +235,8 @@ impl StorageRemovedBytes {
             BasicStorageRemoval(r) => *r,
             SectionedStorageRemoval(m) => m
                 .values()
-                .map(|int_map| int_map.values().copied().sum::<u32>())
-                .sum(),
+                .flat_map(|int_map| int_map.values().copied())
+                .fold(0u32, u32::saturating_add),
         }
     }
 }
-- 
2.43.0


From 317078f293babcd94318988175cb9cae542cccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 12/28] fix: do not overflow when splitting a removal close to
 u32::MAX bytes

---
 grovedb-epoch-based-storage-flags/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grovedb-epoch-based-storage-flags/src/lib.rs b/grovedb-epoch-based-storage-flags/src/lib.rs
index 5a9168a..7cf8519 100644
--- a/grovedb-epoch-based-storage-flags/src/lib.rs
+++ b/grovedb-epoch-based-storage-flags/src/lib.rs
@@ -774,9 +774,9 @@ impl StorageFlags {
 
             while bytes_left > 0 {
                 if let Some((epoch_index, bytes_in_epoch)) = rev_iter.next() {
-                    if *bytes_in_epoch <= bytes_left + MINIMUM_NON_BASE_FLAGS_SIZE {
-                        let epoch_removable =
-                            bytes_in_epoch.saturating_sub(MINIMUM_NON_BASE_FLAGS_SIZE);
+                    let epoch_removable =
+                        bytes_in_epoch.saturating_sub(MINIMUM_NON_BASE_FLAGS_SIZE);
+                    if epoch_removable <= bytes_left {
                         sectioned_storage_removal.insert(*epoch_index, epoch_removable);
                         bytes_left = bytes_left.saturating_sub(epoch_removable);
                     } else {
-- 
2.43.0


From 2c5e8107128369b69845526e746c17c976aacafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 13/28] fix: make dense tree proofs of an empty selection
 verifiable

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index ab97bfd..470c6fb 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -208,6 +208,12 @@ impl DenseTreeProof {
         let mut node_value_hashes: Vec<(u16, [u8; 32])> = Vec::new();
         let mut node_hashes: Vec<(u16, [u8; 32])> = Vec::new();
 
+        // Nothing to prove in a non-empty tree: commit to the tree by its root
+        if proved_set.is_empty() && count > 0 {
+            let hash = cost_return_on_error!(cost, tree.hash_position(0));
+            node_hashes.push((0, hash));
+        }
+
         for &pos in &expanded {
             // Get the value for this position
             let opt = cost_return_on_error!(cost, tree.get_value(pos));
-- 
2.43.0


From d242ec3578e5bc7eeeabffbfd0b215bdee7e4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 14/28] fix: keep staged MMR nodes when a commit fails

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..46f937f 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -98,12 +98,18 @@ impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        // The batch is only emptied once everything is in the store, so that a
+        // failed commit can be retried.
+        for (pos, elems) in self.memory_batch.iter() {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
                 return Err(e).wrap_with_cost(cost);
             }
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From 986353b9a0b0c28b6cc0346c03368f26fc4a569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 15/28] fix: leave a bulk-append log unchanged when an append
 fails

---
 grovedb-bulk-append-tree/src/tree/append.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/grovedb-bulk-append-tree/src/tree/append.rs b/grovedb-bulk-append-tree/src/tree/append.rs
index 5b7e566..f65123c 100644
--- a/grovedb-bulk-append-tree/src/tree/append.rs
+++ b/grovedb-bulk-append-tree/src/tree/append.rs
@@ -55,6 +55,14 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         let mut hash_count: u32 = 0;
         let global_position = self.total_count;
 
+        // An append that stays in the buffer leaves the MMR as it is. Read its
+        // root first: nothing may fail once the buffer holds the value.
+        let current_mmr_root = if self.dense_tree.count() < self.dense_tree.capacity() {
+            Some(self.get_mmr_root()?)
+        } else {
+            None
+        };
+
         // 1. Try to insert into the dense tree buffer
         let try_result = self.dense_tree.try_insert(value).unwrap().map_err(|e| {
             BulkAppendError::StorageError(format!("dense tree insert failed: {}", e))
@@ -64,7 +72,10 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             Some((dense_root, _position)) => {
                 // Inserted successfully, no compaction needed
                 hash_count += self.dense_tree.count() as u32 * 2;
-                let root = self.get_mmr_root()?;
+                let root = match current_mmr_root {
+                    Some(root) => root,
+                    None => self.get_mmr_root()?,
+                };
                 (false, root, dense_root)
             }
             None => {
@@ -142,6 +153,7 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         // Use the overlay from previous compactions so cross-compaction
         // reads work without a storage round-trip. After push+get_root,
         // take the overlay back (don't commit — that happens at session end).
+        let overlay_len = self.mmr_overlay.len();
         let mmr_root = {
             let mmr_store = MmrStore::with_key_size(&self.dense_tree.storage, MmrKeySize::U32);
             let mut mmr =
@@ -158,7 +170,9 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             let root = match root_result {
                 Ok(node) => node.hash(),
                 Err(e) => {
+                    // Restore the overlay without the leaf just pushed
                     self.mmr_overlay = mmr.batch.take_overlay();
+                    self.mmr_overlay.truncate(overlay_len);
                     return Err(BulkAppendError::MmrError(format!(
                         "MMR get_root failed: {}",
                         e
-- 
2.43.0


From 28ca6ef7ab83e0dc7dc2119b932b1b32d65c5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 16/28] fix: terminal keys follow the branch each selected key
 takes

Conditional branches were expanded for keys the query does not select, so an
absence proof reported such keys as absent, and a conditional branch with
neither a subquery path nor a subquery dropped the selected key itself.
---
 grovedb-query/src/query.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..b4f87aa 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -384,13 +384,19 @@ impl Query {
                 }
                 let conditional_keys = conditional_query_item.keys()?;
                 for key in conditional_keys.into_iter() {
+                    // a branch only applies to keys the query selects, and
+                    // the first branch matching a key is the one taken
+                    if !self.items.iter().any(|item| item.contains(&key))
+                        || !already_added_keys.insert(key.clone())
+                    {
+                        continue;
+                    }
                     if current_len > max_results {
                         return Err(Error::RequestAmountExceeded(format!(
                             "terminal keys limit exceeded for conditional subqueries, set max is \
                              {max_results}, current length is {current_len}",
                         )));
                     }
-                    already_added_keys.insert(key.clone());
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
@@ -442,6 +448,19 @@ impl Query {
                             subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
                         added += added_here;
                         current_len += added_here;
+                    } else {
+                        if current_len == max_results {
+                            return Err(Error::RequestAmountExceeded(format!(
+                                "terminal keys limit exceeded for a conditional branch without \
+                                 subquery, set max is {max_results}, current length is \
+                                 {current_len}",
+                            )));
+                        }
+                        // neither a subquery path nor a subquery: the key
+                        // itself is what the query returns
+                        result.push((path, key));
+                        added += 1;
+                        current_len += 1;
                     }
                 }
             }
-- 
2.43.0


From d9426d3446fcf781e1df88ae26981d6ca87db9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 17/28] fix: do not overestimate the maximum tree depth for
 counts near u64::MAX

The minimal node count recurrence saturated at u64::MAX, so the two largest
counts compared as if a tree one level higher fit them.
---
 merk/src/proofs/branch/depth.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merk/src/proofs/branch/depth.rs b/merk/src/proofs/branch/depth.rs
index 70e3325..05d9025 100644
--- a/merk/src/proofs/branch/depth.rs
+++ b/merk/src/proofs/branch/depth.rs
@@ -52,7 +52,10 @@ pub fn calculate_max_tree_depth_from_count(count: u64) -> u8 {
 
     loop {
         // Calculate N(height+1) = F(height+3) - 1
-        let f_next = f_prev.saturating_add(f_curr);
+        let Some(f_next) = f_prev.checked_add(f_curr) else {
+            // More nodes than a u64 can count
+            return height;
+        };
         let next_min_nodes = f_next.saturating_sub(1);
 
         if next_min_nodes > count {
@@ -65,7 +68,7 @@ pub fn calculate_max_tree_depth_from_count(count: u64) -> u8 {
         f_prev = f_curr;
         f_curr = f_next;
 
-        // F(93) overflows u64, so cap at height 92
+        // F(94) overflows u64, so this height is never reached
         if height >= 92 {
             return height;
         }
-- 
2.43.0


From af5494a9517864a0116caa7c83fc4108c363fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 18/28] fix: refuse proofs that hang a visited node below a
 hash node

The hash of a Node::Hash does not depend on its children, so a proof could
push an arbitrary key-value node, attach it to a Node::Hash holding the
genuine root hash, and still execute to that root.
---
 merk/src/proofs/tree.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index 737e047..6f0b6f1 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -527,6 +527,18 @@ where
             .ok_or_else(|| Error::InvalidProofError("Stack underflow".to_string()))
     }
 
+    // The hash of a `Node::Hash` does not depend on what is attached below it,
+    // so nothing that is attached there is proven by the root hash
+    fn check_child_is_hashed(parent: &Tree, child: &Tree) -> Result<(), Error> {
+        match (&parent.node, &child.node) {
+            (Node::Hash(_), Node::Hash(_)) => Ok(()),
+            (Node::Hash(_), _) => Err(Error::InvalidProofError(
+                "Proof attaches a child to a hash node".to_string(),
+            )),
+            _ => Ok(()),
+        }
+    }
+
     for op in ops {
         op_count += 1;
         if op_count > MAX_PROOF_OPS {
@@ -552,6 +564,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_child_is_hashed(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -570,6 +583,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_child_is_hashed(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -588,6 +602,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_child_is_hashed(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -606,6 +621,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_child_is_hashed(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
-- 
2.43.0


From d39016dc4907a0b3cba50949ca06e1ad5744a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 19/28] fix: do not invert an upstream reference to an ancestor
 into one that points elsewhere

---
 grovedb-element/src/reference_path/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/grovedb-element/src/reference_path/mod.rs b/grovedb-element/src/reference_path/mod.rs
index fab47eb..1898374 100644
--- a/grovedb-element/src/reference_path/mod.rs
+++ b/grovedb-element/src/reference_path/mod.rs
@@ -69,7 +69,12 @@ impl ReferencePathType {
             }
             // Since both reference origin and path share N first segments, the backward reference
             // can do the same, key we shall persist for a qualified path as the output
-            ReferencePathType::UpstreamRootHeightReference(n, _) => {
+            ReferencePathType::UpstreamRootHeightReference(n, append_path) => {
+                // With nothing appended it refers to an ancestor, which is too short a path to
+                // keep N segments of
+                if append_path.is_empty() {
+                    return None;
+                }
                 let relative_path: Vec<_> = path
                     .to_vec()
                     .into_iter()
@@ -92,7 +97,9 @@ impl ReferencePathType {
             // Discarding N latest segments is relative to the previously appended path, so it would
             // be easier to discard appended paths both ways and have a shared prefix.
             ReferencePathType::UpstreamFromElementHeightReference(n, append_path) => {
-                if append_path.len() > u8::MAX as usize {
+                // With nothing appended it refers to an ancestor, from which nothing could be
+                // discarded to get to the shared prefix
+                if append_path.is_empty() || append_path.len() > u8::MAX as usize {
                     return None;
                 }
                 let mut relative_path: Vec<Vec<u8>> = path
-- 
2.43.0


From 15cd26f80af8e738b899ff009d3cd225ae44abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 20/28] fix: bound what deserializing an element may allocate,
 so that hostile bytes are refused instead of crashing

---
 grovedb-element/src/element/serialize.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..967d0d4 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -6,6 +6,9 @@ use grovedb_version::{check_grovedb_v0, version::GroveVersion};
 
 use crate::{element::Element, error::ElementError};
 
+/// How much deserializing an element of at most a 32nd of this size may allocate
+const DESERIALIZE_LIMIT: usize = 256 * 1024 * 1024;
+
 impl Element {
     /// Serializes self. Returns vector of u8s.
     pub fn serialize(&self, grove_version: &GroveVersion) -> Result<Vec<u8>, ElementError> {
@@ -34,8 +37,15 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
-        Ok(bincode::decode_from_slice(bytes, config)
+        let config = config::standard().with_big_endian();
+        // The bytes may come from an untrusted proof: without a limit the lengths they claim would
+        // be allocated before it is noticed that there are fewer bytes
+        let decoded = if bytes.len() <= DESERIALIZE_LIMIT / 32 {
+            bincode::decode_from_slice(bytes, config.with_limit::<DESERIALIZE_LIMIT>())
+        } else {
+            bincode::decode_from_slice(bytes, config.with_limit::<{ i32::MAX as usize }>())
+        };
+        Ok(decoded
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
             })?
-- 
2.43.0


From da0b59f00d70a7b115183de96404889c7f1bf09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 21/28] fix: name terminal_keys, not merge, when it is refused
 under an unknown version

---
 grovedb/src/query/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..4e9b0be 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -159,7 +159,7 @@ impl PathQuery {
         grove_version: &GroveVersion,
     ) -> Result<Vec<PathKey>, Error> {
         check_grovedb_v0!(
-            "merge",
+            "terminal_keys",
             grove_version
                 .grovedb_versions
                 .path_query_methods
-- 
2.43.0


From d8926771023e215ca64a77ffcee3070a89f397b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 22/28] fix: report the parent tree of a subquery at its own
 path in verified results

---
 grovedb/src/operations/proof/verify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index a13053a..872325e 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -552,7 +552,7 @@ impl GroveDb {
                                     )? {
                                         let path_key_optional_value =
                                             ProvedPathKeyOptionalValue::from_proved_key_value(
-                                                path.iter().map(|p| p.to_vec()).collect(),
+                                                current_path.iter().map(|p| p.to_vec()).collect(),
                                                 proved_key_value.clone(),
                                             );
                                         result.push(
@@ -1548,7 +1548,7 @@ impl GroveDb {
                                     )? {
                                         let path_key_optional_value =
                                             ProvedPathKeyOptionalValue::from_proved_key_value(
-                                                path.iter().map(|p| p.to_vec()).collect(),
+                                                current_path.iter().map(|p| p.to_vec()).collect(),
                                                 proved_key_value.clone(),
                                             );
 
-- 
2.43.0


From a9fdba7e8af271bd100a18008ec43e80d84fdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 23/28] fix: refuse a Merk lower layer for a non-Merk tree when
 verifying V1 proofs

The root of a dense or MMR tree with one stored value can be made equal to
the root of a Merk tree by the choice of that value, so that a proof could
show made-up elements below the tree.
---
 grovedb/src/operations/proof/verify.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 872325e..a70f843 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -563,6 +563,21 @@ impl GroveDb {
 
                                     // Dispatch based on lower layer proof type
                                     let lower_hash = match &lower_layer.merk_proof {
+                                        // The root of a non-Merk tree depends on its
+                                        // values alone, which can be chosen so that it
+                                        // is also the root of some Merk tree.
+                                        ProofBytes::Merk(_)
+                                            if element.uses_non_merk_data_storage() =>
+                                        {
+                                            return Err(Error::InvalidProof(
+                                                query.clone(),
+                                                format!(
+                                                    "V1 proof has a Merk lower layer for the \
+                                                     non-Merk tree at key {}",
+                                                    hex::encode(key)
+                                                ),
+                                            ));
+                                        }
                                         ProofBytes::Merk(_) => {
                                             // Standard Merk subtree - recurse
                                             Self::verify_layer_proof_v1(
-- 
2.43.0


From 2eb7983494e93f00f316f6083f9989b80e2d6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 24/28] fix: return MMR and dense tree values in position order
 when verifying proofs

A V1 proof may list the leaves of an MMR or the entries of a dense tree in
any order, and the verifier took results (and applied the limit) in the
proof's order: a proof with reordered leaves verified against the same
root and, under a limit, left out the first queried values.
---
 grovedb/src/operations/proof/verify.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index a70f843..355a0b9 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -860,10 +860,14 @@ impl GroveDb {
 
         // Compute root from the proof — the Merk child hash mechanism
         // authenticates this root via combine_hash(value_hash || mmr_root)
-        let (mmr_root, verified_leaves) = mmr_proof
+        let (mmr_root, mut verified_leaves) = mmr_proof
             .verify_and_get_root()
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
+        // A proof may list its leaves in any order; return them in position
+        // order so that a limit always keeps the first ones.
+        verified_leaves.sort_by_key(|(leaf_index, _)| *leaf_index);
+
         // Get the sub-query items for this path to enforce succinctness.
         let sub_query =
             query
@@ -1142,10 +1146,14 @@ impl GroveDb {
         // verify_for_query validates height+count from the authenticated Element,
         // checks completeness (all queried positions present) and soundness
         // (no unrequested positions), then returns only matching entries.
-        let (computed_root, verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
+        let (computed_root, mut verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
             .verify_for_query(&level_query, element_height, element_count)
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
+        // A proof may list its entries in any order; return them in position
+        // order so that a limit always keeps the first ones.
+        verified_entries.sort_by_key(|(position, _)| *position);
+
         // Add each verified entry to the result set
         for (position, value) in verified_entries {
             let key = position.to_be_bytes().to_vec();
-- 
2.43.0


From 8e1ef7746718e7ddc49457f9960ce065c2fe01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 25/28] fix: do not overflow on leaf positions of the largest
 mountain range

---
 grovedb-merkle-mountain-range/src/helper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/helper.rs b/grovedb-merkle-mountain-range/src/helper.rs
index 8d94885..3dbbe2f 100644
--- a/grovedb-merkle-mountain-range/src/helper.rs
+++ b/grovedb-merkle-mountain-range/src/helper.rs
@@ -2,7 +2,7 @@
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1`. Callers must validate indices
+/// Overflows when `index >= 2^63`. Callers must validate indices
 /// before calling (e.g. check `index < mmr_size_to_leaf_count(mmr_size)`).
 pub fn leaf_index_to_pos(index: u64) -> u64 {
     // mmr_size - H - 1, H is the height(intervals) of last peak
@@ -13,7 +13,7 @@ pub fn leaf_index_to_pos(index: u64) -> u64 {
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1` because `2 * leaves_count` exceeds
+/// Overflows when `index >= 2^63` because the size exceeds
 /// `u64::MAX`. Callers must validate indices before calling.
 pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // leaf index start with 0
@@ -23,7 +23,8 @@ pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // representation
     let peak_count = leaves_count.count_ones() as u64;
 
-    2 * leaves_count - peak_count
+    // 2 * leaves_count does not fit for the largest range, of 2^63 leaves
+    leaves_count - peak_count + leaves_count
 }
 
 /// Return the height of the subtree rooted at `pos` in the MMR.
-- 
2.43.0


From b3b341abed494efabacda92d17ccceb0772326b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 26/28] fix: report the tree at the query's path as its parent
 tree

verify_query_get_parent_tree_info returned the last tree the verifier had met:
a proof which shows the layer below a returned tree made it report that tree
instead of the parent, and a path that ends at an empty tree, an item or
nothing made it report the tree above.
---
 grovedb/src/operations/proof/verify.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 355a0b9..c13a4e4 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,12 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // The parent tree is the one at the path of the query: neither a
+                    // tree on the way there nor one found inside it
+                    if path.len() + 1 == query.path.len() {
+                        *last_parent_tree_type = element.tree_feature_type();
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -502,7 +508,6 @@ impl GroveDb {
                             | Element::BulkAppendTree(..)
                             | Element::DenseAppendOnlyFixedSizeTree(..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // Query targets the tree itself, not its contents.
                                     // Nothing below will be checked against the tree,
@@ -1520,6 +1525,12 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // The parent tree is the one at the path of the query: neither a
+                    // tree on the way there nor one found inside it
+                    if path.len() + 1 == query.path.len() {
+                        *last_parent_tree_type = element.tree_feature_type();
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         #[cfg(feature = "proof_debug")]
                         {
@@ -1534,7 +1545,6 @@ impl GroveDb {
                             | Element::ProvableCountTree(Some(_), ..)
                             | Element::ProvableCountSumTree(Some(_), ..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // We are actually looking for the tree
                                     let path_key_optional_value =
-- 
2.43.0


From 32931034841093c2b1796ce432f0cadb69f7a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 27/28] fix: terminal keys follow the first branch a key
 matches, as queries do

A bounded conditional range contains longer keys than the one-byte keys it
enumerates. Such a key listed by an item was given the default branch (or the
branch of a later condition) although the query applies the range's branch.
---
 grovedb-query/src/query.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index b4f87aa..b7b4b9a 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -358,6 +358,19 @@ impl Query {
         self.terminal_keys_inner(current_path, max_results, result, 0)
     }
 
+    /// The branch a key falls under: the first conditional branch matching it,
+    /// or else the default branch.
+    fn subquery_branch_for_key(&self, key: &[u8]) -> &SubqueryBranch {
+        if let Some(conditional_subquery_branches) = &self.conditional_subquery_branches {
+            for (conditional_query_item, subquery_branch) in conditional_subquery_branches {
+                if conditional_query_item.contains(key) {
+                    return subquery_branch;
+                }
+            }
+        }
+        &self.default_subquery_branch
+    }
+
     fn terminal_keys_inner(
         &self,
         current_path: Vec<Vec<u8>>,
@@ -374,7 +387,7 @@ impl Query {
         let mut added = 0;
         let mut already_added_keys = HashSet::new();
         if let Some(conditional_subquery_branches) = &self.conditional_subquery_branches {
-            for (conditional_query_item, subquery_branch) in conditional_subquery_branches {
+            for (conditional_query_item, _) in conditional_subquery_branches {
                 // unbounded ranges can not be supported
                 if conditional_query_item.is_unbounded_range() {
                     return Err(Error::NotSupported(
@@ -397,6 +410,9 @@ impl Query {
                              {max_results}, current length is {current_len}",
                         )));
                     }
+                    // a range may contain longer keys than it enumerates, so the
+                    // first branch matching the key may be another one
+                    let subquery_branch = self.subquery_branch_for_key(&key);
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
@@ -483,9 +499,10 @@ impl Query {
                          current len is {current_len}",
                     )));
                 }
+                let subquery_branch = self.subquery_branch_for_key(&key);
                 let mut path = current_path.clone();
-                if let Some(subquery_path) = &self.default_subquery_branch.subquery_path {
-                    if let Some(subquery) = &self.default_subquery_branch.subquery {
+                if let Some(subquery_path) = &subquery_branch.subquery_path {
+                    if let Some(subquery) = &subquery_branch.subquery {
                         // a subquery path with a subquery
                         // push the key to the path
                         path.push(key);
@@ -519,7 +536,7 @@ impl Query {
                         added += 1;
                         current_len += 1;
                     }
-                } else if let Some(subquery) = &self.default_subquery_branch.subquery {
+                } else if let Some(subquery) = &subquery_branch.subquery {
                     // a subquery without a subquery path
                     // push the key to the path
                     path.push(key);
-- 
2.43.0


From 88910dacea821adceecae61aca0c08fd3cd22afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:25 +0000
Subject: [PATCH 28/28] fix: merging subquery branches panicked on an empty
 subquery path

---
 grovedb-query/src/merge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..47ebbdb 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -26,7 +26,10 @@ impl SubqueryBranch {
     /// subqueries. When paths differ, creates conditional subqueries to
     /// preserve both branches.
     pub fn merge(&self, other: &Self) -> Self {
-        match (&self.subquery_path, &other.subquery_path) {
+        // An empty subquery path leads nowhere and is the same as none
+        let our_path = self.subquery_path.as_ref().filter(|path| !path.is_empty());
+        let their_path = other.subquery_path.as_ref().filter(|path| !path.is_empty());
+        match (our_path, their_path) {
             (None, None) => {
                 // they both just have subqueries without paths
                 let subquery = self.merge_subquery(other.subquery.clone());
@@ -259,9 +262,12 @@ impl Query {
     /// present. Merging involves creating conditional subqueries in the
     /// subqueries subqueries and paths.
     pub fn merge_default_subquery_branch(&mut self, other_default_subquery_branch: SubqueryBranch) {
+        // An empty subquery path leads nowhere and is the same as none
+        let our_path = self.default_subquery_branch.subquery_path.as_ref();
+        let their_path = other_default_subquery_branch.subquery_path.as_ref();
         match (
-            &self.default_subquery_branch.subquery_path,
-            &other_default_subquery_branch.subquery_path,
+            our_path.filter(|path| !path.is_empty()),
+            their_path.filter(|path| !path.is_empty()),
         ) {
             (None, None) => {
                 // they both just have subqueries without paths
-- 
2.43.0

