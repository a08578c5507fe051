From ad0e85188e62ddece358ea8f800a40a9a2183488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 01/36] fix: merging a conditional subquery keeps routing right
 when conditional items overlap

---
 grovedb-query/src/merge.rs | 111 +++++++++----------------------------
 1 file changed, 27 insertions(+), 84 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..ea80eb0 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -604,103 +604,46 @@ impl Query {
             let mut sub_query_items_merging_in_vec = vec![query_item_merging_in];
             for (original_query_item, subquery_branch) in conditional_subquery_branches {
                 let mut new_query_items_merging_in_vec = vec![];
-                let mut hit = false;
+                // the parts of the original item that nothing was merged into yet: more than
+                // one part of the item merging in can intersect with the original item, when
+                // original items overlap
+                let mut original_leftovers = vec![original_query_item.clone()];
                 for sub_query_item_merging_in in sub_query_items_merging_in_vec {
                     let QueryItemIntersectionResult {
                         in_both,
-                        ours_left,
-                        ours_right,
                         theirs_left,
                         theirs_right,
+                        ..
                     } = original_query_item.intersect(&sub_query_item_merging_in);
                     if let Some(in_both) = in_both {
-                        if !hit {
-                            hit = true;
-                        }
-                        // merge the overlapping subquery branches
-                        let merged_subquery_branch =
-                            subquery_branch.merge(&subquery_branch_merging_in);
-                        merged_items.insert(in_both, merged_subquery_branch);
-
-                        match (ours_left, ours_right, theirs_left, theirs_right) {
-                            (None, None, None, None) => {}
-                            (Some(ours_left), None, None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                            }
-                            (None, Some(ours_right), None, None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (Some(ours_left), Some(ours_right), None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (None, None, Some(theirs_left), None) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), None, Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, None, None, Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), None, None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, None, Some(theirs_left), Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-
-                            (Some(ours_left), None, Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (
-                                Some(ours_left),
-                                Some(ours_right),
-                                Some(theirs_left),
-                                Some(theirs_right),
-                            ) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                        }
+                        // merge the overlapping subquery branches, an item that is already
+                        // there comes first and keeps its branch
+                        merged_items
+                            .entry(in_both)
+                            .or_insert_with(|| subquery_branch.merge(&subquery_branch_merging_in));
+                        original_leftovers = original_leftovers
+                            .into_iter()
+                            .flat_map(|leftover| {
+                                let QueryItemIntersectionResult {
+                                    ours_left,
+                                    ours_right,
+                                    ..
+                                } = leftover.intersect(&sub_query_item_merging_in);
+                                ours_left.into_iter().chain(ours_right)
+                            })
+                            .collect();
+                        new_query_items_merging_in_vec.extend(theirs_left);
+                        new_query_items_merging_in_vec.extend(theirs_right);
                     } else {
                         // there was no overlap
                         // re-add to merged_items
                         new_query_items_merging_in_vec.push(sub_query_item_merging_in);
                     }
                 }
-                if !hit {
-                    merged_items.insert(original_query_item, subquery_branch.clone());
+                for leftover in original_leftovers {
+                    merged_items
+                        .entry(leftover)
+                        .or_insert_with(|| subquery_branch.clone());
                 }
                 sub_query_items_merging_in_vec = new_query_items_merging_in_vec;
             }
-- 
2.43.0


From 660dd6479897c766d2c544faa33b84fe2436ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 02/36] fix: merging queries keeps the default subquery of
 shared keys

---
 grovedb-query/src/merge.rs | 60 ++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index ea80eb0..c94efd2 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -118,10 +118,12 @@ impl SubqueryBranch {
                             Some(left_path_leftovers)
                         };
 
+                        let own_items = merged_query.items.clone();
                         merged_query.insert_key(first_key.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
+                        merged_query.merge_subquery_branch_at_item(
+                            &own_items,
                             QueryItem::Key(first_key),
                             SubqueryBranch {
                                 subquery_path: maybe_left_path_leftovers,
@@ -143,10 +145,12 @@ impl SubqueryBranch {
                         } else {
                             Some(right_path_leftovers)
                         };
+                        let own_items = merged_query.items.clone();
                         merged_query.insert_key(other_first.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
+                        merged_query.merge_subquery_branch_at_item(
+                            &own_items,
                             QueryItem::Key(other_first),
                             SubqueryBranch {
                                 subquery_path: maybe_right_path_leftovers,
@@ -175,6 +179,7 @@ impl SubqueryBranch {
 
                 let our_top_key = our_subquery_path.remove(0);
 
+                let own_items = merged_subquery.items.clone();
                 merged_subquery.insert_key(our_top_key.clone());
 
                 let maybe_our_subquery_path = if our_subquery_path.is_empty() {
@@ -184,7 +189,8 @@ impl SubqueryBranch {
                 };
                 // our subquery stays the same as we didn't change level
                 // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
+                merged_subquery.merge_subquery_branch_at_item(
+                    &own_items,
                     // there are no conditional subquery branches yes
                     QueryItem::Key(our_top_key),
                     SubqueryBranch {
@@ -211,6 +217,7 @@ impl SubqueryBranch {
 
                 let their_top_key = their_subquery_path.remove(0);
 
+                let own_items = merged_subquery.items.clone();
                 merged_subquery.insert_key(their_top_key.clone());
 
                 let maybe_their_subquery_path = if their_subquery_path.is_empty() {
@@ -220,7 +227,8 @@ impl SubqueryBranch {
                 };
                 // their subquery stays the same as we didn't change level
                 // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
+                merged_subquery.merge_subquery_branch_at_item(
+                    &own_items,
                     // there are no conditional subquery branches yes
                     QueryItem::Key(their_top_key),
                     SubqueryBranch {
@@ -455,6 +463,7 @@ impl Query {
                 merged_query.add_parent_tree_on_subquery = true;
             }
             // the searched for items are the union of all items
+            let own_items = merged_query.items.clone();
             merged_query.insert_items(items.clone());
 
             // // We now need to deal with subqueries
@@ -484,7 +493,8 @@ impl Query {
 
                 for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches
                 {
-                    merged_query.merge_conditional_boxed_subquery(
+                    merged_query.merge_subquery_branch_at_item(
+                        &own_items,
                         conditional_item.clone(),
                         conditional_subquery_branch,
                     );
@@ -499,8 +509,11 @@ impl Query {
             // we create a conditional subquery item for all our items and add it to the
             // query
             for item in items {
-                merged_query
-                    .merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
+                merged_query.merge_subquery_branch_at_item(
+                    &own_items,
+                    item,
+                    default_subquery_branch.clone(),
+                );
             }
         }
         merged_query
@@ -520,6 +533,7 @@ impl Query {
         if add_parent_tree_on_subquery {
             self.add_parent_tree_on_subquery = true;
         }
+        let own_items = self.items.clone();
         self.insert_items(items.clone());
 
         // let intersection_result = QueryItem::intersect_many_ordered(&mut self.items,
@@ -531,7 +545,8 @@ impl Query {
         // self.merge_default_subquery_branch(default_subquery_branch);
         if let Some(conditional_subquery_branches) = conditional_subquery_branches {
             for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches {
-                self.merge_conditional_boxed_subquery(
+                self.merge_subquery_branch_at_item(
+                    &own_items,
                     conditional_item.clone(),
                     conditional_subquery_branch,
                 );
@@ -544,8 +559,35 @@ impl Query {
             }
         }
         for item in items {
-            self.merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
+            self.merge_subquery_branch_at_item(&own_items, item, default_subquery_branch.clone());
+        }
+    }
+
+    /// Merges a subquery branch in at an item. A conditional subquery replaces
+    /// the default subquery, so the keys of the item that this query already
+    /// searched for (`own_items`) first get the default subquery as a
+    /// conditional one, for the branch to be merged with.
+    fn merge_subquery_branch_at_item(
+        &mut self,
+        own_items: &[QueryItem],
+        item: QueryItem,
+        branch: SubqueryBranch,
+    ) {
+        let has_subquery =
+            |branch: &SubqueryBranch| branch.subquery.is_some() || branch.subquery_path.is_some();
+        if has_subquery(&branch) && has_subquery(&self.default_subquery_branch) {
+            let conditional_subquery_branches =
+                self.conditional_subquery_branches.get_or_insert_default();
+            for shared in own_items
+                .iter()
+                .filter_map(|own| own.intersect(&item).in_both)
+            {
+                conditional_subquery_branches
+                    .entry(shared)
+                    .or_insert_with(|| self.default_subquery_branch.clone());
+            }
         }
+        self.merge_conditional_boxed_subquery(item, branch);
     }
 
     /// Adds a conditional subquery. A conditional subquery replaces the default
-- 
2.43.0


From 865e2c904e75a5342d437b9c9f2359496826d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 03/36] fix: a path whose last owned segment was taken off is
 the root

---
 path/src/subtree_path_builder.rs | 10 ++--------
 path/src/subtree_path_iter.rs    |  7 +------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..642c04d 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,7 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        self.len() == 0
     }
 }
 
@@ -332,13 +332,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.relative.is_empty() && self.base.is_root()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..a5b63a4 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,12 +77,7 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
-            && match &self.current_iter {
-                CurrentSubtreePathIter::Single(_) => false,
-                CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-                CurrentSubtreePathIter::OwnedBytes(bytes_iter) => bytes_iter.len() == 0,
-            }
+        self.len() == 0
     }
 }
 
-- 
2.43.0


From 4079c6edfb3c1db007ba76e9e0f7b4b3c726bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 04/36] fix: adding basic to sectioned removed bytes keeps the
 default identifier's section

---
 costs/src/storage_cost/removal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..ac0f687 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
@@ -152,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0


From 6788b1e141e305b436eb81e06699e621f07c83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 05/36] fix: reading an element rejects lengths no element can
 have

---
 grovedb-element/src/element/serialize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..6b031e7 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -34,7 +34,10 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
+        // lengths in the bytes are not to be trusted: no element is longer than a u32 can say
+        let config = config::standard()
+            .with_big_endian()
+            .with_limit::<{ u32::MAX as usize }>();
         Ok(bincode::decode_from_slice(bytes, config)
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
-- 
2.43.0


From a88bf53b55d41eccd41381c8e1d7f22a838a6f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 06/36] fix: an MMR proof that ends early must end on a bagged
 peak, not on one made of leaves

---
 grovedb-merkle-mountain-range/src/proof.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..482c87d 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -276,21 +276,31 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     let peaks = get_peaks(mmr_size);
 
     let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    let mut last_from_proof = false;
     for peak_pos in peaks {
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
             // leaf is the peak
+            last_from_proof = false;
             leaves.remove(0).1
         } else if leaves.is_empty() {
             // if empty, means the next proof is a peak root or rhs bagged root
             if let Some(peak_root) = proof_iter.next() {
+                last_from_proof = true;
                 peak_root.clone()
-            } else {
+            } else if last_from_proof {
                 // means that either all right peaks are bagged, or proof is corrupted
                 // so we break loop and check no items left
                 break;
+            } else {
+                // a peak made of leaves stands for itself only: taking it for the
+                // bagged rest would let a leaf pass at another leaf's index
+                return Err(Error::InvalidProof(
+                    "not enough proof items for right peaks".into(),
+                ));
             }
         } else {
+            last_from_proof = false;
             calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
         };
         peaks_hashes.push(peak_root.clone());
-- 
2.43.0


From 1e9ec7c556a3ec1a4346504a211b2e196802dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 07/36] fix: the size of the largest MMR does not overflow

---
 grovedb-merkle-mountain-range/src/helper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/helper.rs b/grovedb-merkle-mountain-range/src/helper.rs
index 8d94885..873025a 100644
--- a/grovedb-merkle-mountain-range/src/helper.rs
+++ b/grovedb-merkle-mountain-range/src/helper.rs
@@ -13,8 +13,8 @@ pub fn leaf_index_to_pos(index: u64) -> u64 {
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1` because `2 * leaves_count` exceeds
-/// `u64::MAX`. Callers must validate indices before calling.
+/// Overflows when `index >= 2^63` because the size exceeds `u64::MAX`. Callers
+/// must validate indices before calling.
 pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // leaf index start with 0
     let leaves_count = index + 1;
@@ -23,7 +23,8 @@ pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // representation
     let peak_count = leaves_count.count_ones() as u64;
 
-    2 * leaves_count - peak_count
+    // not 2 * leaves_count: the largest tree has 2^63 leaves
+    leaves_count + (leaves_count - peak_count)
 }
 
 /// Return the height of the subtree rooted at `pos` in the MMR.
-- 
2.43.0


From c4ba20933e363dc9796eef22d432632607af716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 08/36] fix: an inclusive range over an empty dense tree
 selects nothing

---
 .../src/proof/mod.rs                                 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..362852b 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -66,8 +66,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                let end = end.saturating_add(1).min(count);
+                for p in start..end {
                     positions.insert(p);
                 }
             }
@@ -90,8 +90,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                let end = end.saturating_add(1).min(count);
+                for p in 0..end {
                     positions.insert(p);
                 }
             }
@@ -111,8 +111,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeAfterToInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start.saturating_add(1)..=clamped_end {
+                let end = end.saturating_add(1).min(count);
+                for p in start.saturating_add(1)..end {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From fb1a339df09b2428257c09cdb264cdc299709d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 09/36] fix: check for leaves left over before asking for the
 right peaks of an MMR proof

---
 grovedb-merkle-mountain-range/src/proof.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index 482c87d..f17e162 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -277,6 +277,7 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
 
     let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
     let mut last_from_proof = false;
+    let mut ended_early = false;
     for peak_pos in peaks {
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
@@ -288,16 +289,11 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
             if let Some(peak_root) = proof_iter.next() {
                 last_from_proof = true;
                 peak_root.clone()
-            } else if last_from_proof {
+            } else {
                 // means that either all right peaks are bagged, or proof is corrupted
                 // so we break loop and check no items left
+                ended_early = true;
                 break;
-            } else {
-                // a peak made of leaves stands for itself only: taking it for the
-                // bagged rest would let a leaf pass at another leaf's index
-                return Err(Error::InvalidProof(
-                    "not enough proof items for right peaks".into(),
-                ));
             }
         } else {
             last_from_proof = false;
@@ -310,6 +306,13 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     if !leaves.is_empty() {
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
+    // a peak made of leaves stands for itself only: taking it for the bagged
+    // rest would let a leaf pass at another leaf's index
+    if ended_early && !last_from_proof {
+        return Err(Error::InvalidProof(
+            "not enough proof items for right peaks".into(),
+        ));
+    }
 
     // check rhs peaks
     if let Some(rhs_peaks_hashes) = proof_iter.next() {
-- 
2.43.0


From c0fe48ef5ca2f32f120d543e65f7a67cfb5ef98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 10/36] fix: an MMR commit that fails keeps what it has not
 stored

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..294dd56 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -98,12 +98,21 @@ impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        // what the store did not take stays pending, so that a failed commit can be
+        // retried and nothing is lost
+        let mut committed = 0;
+        for (pos, elems) in self.memory_batch.iter() {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
+                self.memory_batch.drain(..committed);
                 return Err(e).wrap_with_cost(cost);
             }
+            committed += 1;
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From 2b7aa4bbe59cb8f34e9347021e5c87ecc761c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 11/36] fix: an append that fails leaves the bulk append tree
 as it was

---
 grovedb-bulk-append-tree/src/tree/append.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grovedb-bulk-append-tree/src/tree/append.rs b/grovedb-bulk-append-tree/src/tree/append.rs
index 5b7e566..1e8262a 100644
--- a/grovedb-bulk-append-tree/src/tree/append.rs
+++ b/grovedb-bulk-append-tree/src/tree/append.rs
@@ -55,6 +55,14 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         let mut hash_count: u32 = 0;
         let global_position = self.total_count;
 
+        // Read what an insert into the buffer needs of the MMR before inserting:
+        // reading may fail, and a failed append must not leave its value behind.
+        let current_mmr_root = if self.dense_tree.count() < self.dense_tree.capacity() {
+            self.get_mmr_root()?
+        } else {
+            [0u8; 32] // compaction makes a new root
+        };
+
         // 1. Try to insert into the dense tree buffer
         let try_result = self.dense_tree.try_insert(value).unwrap().map_err(|e| {
             BulkAppendError::StorageError(format!("dense tree insert failed: {}", e))
@@ -64,8 +72,7 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             Some((dense_root, _position)) => {
                 // Inserted successfully, no compaction needed
                 hash_count += self.dense_tree.count() as u32 * 2;
-                let root = self.get_mmr_root()?;
-                (false, root, dense_root)
+                (false, current_mmr_root, dense_root)
             }
             None => {
                 // Dense tree is full — compact existing entries + new value.
@@ -158,7 +165,10 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             let root = match root_result {
                 Ok(node) => node.hash(),
                 Err(e) => {
+                    // Restore overlay without the pushed chunk: the append
+                    // fails, so the chunk is not part of the tree
                     self.mmr_overlay = mmr.batch.take_overlay();
+                    self.mmr_overlay.pop();
                     return Err(BulkAppendError::MmrError(format!(
                         "MMR get_root failed: {}",
                         e
-- 
2.43.0


From 9387779f891f483b8a287d672c3d92ca0919802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 12/36] fix: proof decoder advances by the bytes it read

---
 grovedb-query/src/proofs/encoding.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/grovedb-query/src/proofs/encoding.rs b/grovedb-query/src/proofs/encoding.rs
index 8cfadb3..fba3a82 100644
--- a/grovedb-query/src/proofs/encoding.rs
+++ b/grovedb-query/src/proofs/encoding.rs
@@ -1049,7 +1049,11 @@ impl Op {
 
     /// Decode an Op from bytes
     pub fn decode(bytes: &[u8]) -> Result<Self, Error> {
-        Decode::decode(bytes).map_err(|e| match e {
+        Self::decode_from(bytes)
+    }
+
+    fn decode_from<R: Read>(input: R) -> Result<Self, Error> {
+        Decode::decode(input).map_err(|e| match e {
             EdError::UnexpectedByte(byte) => Error::InvalidProofError(format!(
                 "failed to decode an proofs::Op structure (UnexpectedByte: {byte})"
             )),
@@ -1104,9 +1108,11 @@ impl Iterator for Decoder<'_> {
         }
 
         Some((|| {
-            let bytes = &self.bytes[self.offset..];
-            let op = Op::decode(bytes)?;
-            self.offset += op.encoding_length();
+            let mut rest = &self.bytes[self.offset..];
+            let op = Op::decode_from(&mut rest)?;
+            // Advance by what was read, not by `op.encoding_length()`: an op
+            // can be encoded in more bytes than its shortest encoding.
+            self.offset = self.bytes.len() - rest.len();
             Ok(op)
         })())
     }
-- 
2.43.0


From 1cbf0efdc42b79dd1be26e2230b69a1bcb3a6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 13/36] fix: reject proofs that attach children to a hash node

---
 merk/src/proofs/tree.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..e90133d 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -333,6 +333,15 @@ impl Tree {
             .wrap_with_cost(cost);
         }
 
+        // A `Node::Hash` is an opaque subtree hash which does not commit to
+        // children, so nothing below it would be authenticated.
+        if matches!(self.node, Node::Hash(_)) {
+            return Err(Error::InvalidProofError(
+                "Cannot attach a child to a hash node".to_string(),
+            ))
+            .wrap_with_cost(cost);
+        }
+
         let new_height = self.height.max(child.height + 1);
         if new_height > MAX_PROOF_TREE_HEIGHT {
             return Err(Error::InvalidProofError(format!(
-- 
2.43.0


From 64d7f5887cf75dcdfe2bd9dc51d551f528e7ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 14/36] fix: reject query proofs with ops of the opposite
 direction

---
 merk/src/proofs/query/verify.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..0ab684e 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -151,7 +151,23 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // Absence and completeness are judged from the order in which nodes are
+        // visited, so the ops must all build the tree in the queried direction.
+        let ops = decoder.by_ref().map(|op| match op? {
+            Op::Push(_) | Op::Parent | Op::Child if !left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Unexpected left to right op in a right to left proof".to_string(),
+                ))
+            }
+            Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted if left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Unexpected right to left op in a left to right proof".to_string(),
+                ))
+            }
+            op => Ok(op),
+        });
+
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From 7efcddb9ac730995958bae1ef96189fe5073fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 15/36] fix: a proof could show a tree that has contents as an
 empty one and so leave them out: the value hash of an empty tree was not
 checked where the query descends or skips empty trees

---
 grovedb/src/operations/proof/verify.rs | 110 +++++++++++++------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..5d3c93a 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,35 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // For empty trees (no lower layer proof), verify that the
+                    // value_hash matches combine_hash(H(value), NULL_HASH).
+                    // Without this check, an attacker could swap tree types
+                    // (e.g. SumTree→Tree) in KVValueHash nodes, or show a tree
+                    // that has contents as an empty one to leave them out,
+                    // without breaking the merk proof, since the value bytes
+                    // are not part of the KVValueHash tree hash computation.
+                    if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && !layer_proof.lower_layers.contains_key(key)
+                    {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "V1 empty tree value hash mismatch at key {}: \
+                                     expected {}, got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -645,32 +674,6 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // For non-empty Merk trees without a subquery (no
                         // lower layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
@@ -1450,6 +1453,35 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // For empty trees (no lower layer proof), verify that the
+                    // value_hash matches combine_hash(H(value), NULL_HASH).
+                    // Without this check, an attacker could swap tree types
+                    // (e.g. SumTree→Tree) in KVValueHash nodes, or show a tree
+                    // that has contents as an empty one to leave them out,
+                    // without breaking the merk proof, since the value bytes
+                    // are not part of the KVValueHash tree hash computation.
+                    if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && !layer_proof.lower_layers.contains_key(key)
+                    {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "empty tree value hash mismatch at key {}: expected \
+                                     {}, got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         #[cfg(feature = "proof_debug")]
                         {
@@ -1604,32 +1636,6 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "empty tree value hash mismatch at key {}: expected \
-                                         {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // V0 proofs do not require
                         // KVValueHashFeatureTypeWithChildHash for non-empty
                         // trees without subqueries — that check is V1-only.
-- 
2.43.0


From 1859e0ff604fbe6e4febd289cba0c2627ea4bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 16/36] fix: an unresolved reference in a proof node that does
 not bind its value was skipped or given as a result; provers show what a
 reference leads to

---
 grovedb/src/operations/proof/verify.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 5d3c93a..2cb780a 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,19 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // A reference is shown as what it leads to, in a node whose hash
+                    // covers both. An unresolved one comes only in nodes that do not
+                    // bind the value, so it could stand for anything.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "proof contains an unresolved reference at key {}",
+                                hex::encode(key),
+                            ),
+                        ));
+                    }
+
                     // For empty trees (no lower layer proof), verify that the
                     // value_hash matches combine_hash(H(value), NULL_HASH).
                     // Without this check, an attacker could swap tree types
@@ -1453,6 +1466,19 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // A reference is shown as what it leads to, in a node whose hash
+                    // covers both. An unresolved one comes only in nodes that do not
+                    // bind the value, so it could stand for anything.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "proof contains an unresolved reference at key {}",
+                                hex::encode(key),
+                            ),
+                        ));
+                    }
+
                     // For empty trees (no lower layer proof), verify that the
                     // value_hash matches combine_hash(H(value), NULL_HASH).
                     // Without this check, an attacker could swap tree types
-- 
2.43.0


From 91a7efd431ed52e727b54194a7b3e3408fb9f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 17/36] fix: a queried tree element that comes with a lower
 layer was taken without checking the layer against the element's value hash,
 so any tree could be shown for it

---
 grovedb/src/operations/proof/verify.rs | 131 ++++++++++++++++++++++++-
 1 file changed, 129 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 2cb780a..77c3a3b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -546,7 +546,21 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
+                                    // Query targets the tree itself, not its contents.
+                                    // The contents are what binds the element to the
+                                    // hash of its node.
+                                    let lower_hash = Self::lower_layer_root_hash_v1(
+                                        lower_layer,
+                                        &element,
+                                        query,
+                                    )?;
+                                    Self::verify_lower_layer_hash(
+                                        key,
+                                        value_bytes,
+                                        hash,
+                                        &lower_hash,
+                                        query,
+                                    )?;
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
                                             path.iter().map(|p| p.to_vec()).collect(),
@@ -754,6 +768,108 @@ impl GroveDb {
         Ok(root_hash)
     }
 
+    /// The root hash that a merk proof amounts to, whatever it proves.
+    fn merk_root_hash(merk_proof: &[u8], query: &PathQuery) -> Result<CryptoHash, Error> {
+        let invalid =
+            |e| Error::InvalidProof(query.clone(), format!("Invalid lower layer proof: {}", e));
+        let tree = execute(Decoder::new(merk_proof), true, |_| Ok(()))
+            .unwrap()
+            .map_err(invalid)?;
+        Ok(tree.hash().unwrap())
+    }
+
+    /// The root hash that a lower layer amounts to, whatever it proves.
+    fn lower_layer_root_hash_v1(
+        lower_layer: &LayerProof,
+        element: &Element,
+        query: &PathQuery,
+    ) -> Result<CryptoHash, Error> {
+        let invalid = |e: String| Error::InvalidProof(query.clone(), e);
+        let bulk_root = |bytes: &[u8]| {
+            let (Element::BulkAppendTree(total_count, height, _)
+            | Element::CommitmentTree(total_count, height, _)) = element
+            else {
+                return Err(invalid(
+                    "BulkAppendTree proof attached to incompatible element".to_string(),
+                ));
+            };
+            grovedb_bulk_append_tree::BulkAppendTreeProof::decode_from_slice(bytes)
+                .and_then(|proof| proof.verify_and_compute_root(*height, *total_count))
+                .map(|(root, _)| root)
+                .map_err(|e| invalid(e.to_string()))
+        };
+        match &lower_layer.merk_proof {
+            ProofBytes::Merk(bytes) => Self::merk_root_hash(bytes, query),
+            ProofBytes::MMR(bytes) => {
+                let proof = grovedb_merkle_mountain_range::MmrTreeProof::decode_from_slice(bytes)
+                    .map_err(|e| invalid(e.to_string()))?;
+                match element {
+                    Element::MmrTree(mmr_size, _) if *mmr_size == proof.mmr_size() => {}
+                    _ => return Err(invalid("MMR proof does not match its element".to_string())),
+                }
+                if proof.mmr_size() == 0 && proof.leaves().is_empty() {
+                    return Ok(NULL_HASH);
+                }
+                proof
+                    .verify_and_get_root()
+                    .map(|(root, _)| root)
+                    .map_err(|e| invalid(e.to_string()))
+            }
+            ProofBytes::BulkAppendTree(bytes) => bulk_root(bytes),
+            ProofBytes::CommitmentTree(bytes) => {
+                let Some((sinsemilla_root, bulk_bytes)) = bytes.split_at_checked(32) else {
+                    return Err(invalid(
+                        "CommitmentTree proof too short (missing sinsemilla_root)".to_string(),
+                    ));
+                };
+                let mut hasher = blake3::Hasher::new();
+                hasher.update(b"ct_state");
+                hasher.update(sinsemilla_root);
+                hasher.update(&bulk_root(bulk_bytes)?);
+                Ok(*hasher.finalize().as_bytes())
+            }
+            ProofBytes::DenseTree(bytes) => {
+                let Element::DenseAppendOnlyFixedSizeTree(count, height, _) = element else {
+                    return Err(invalid(
+                        "DenseTree proof attached to non-DenseTree element".to_string(),
+                    ));
+                };
+                grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof::decode_from_slice(bytes)
+                    .and_then(|proof| {
+                        proof.verify_and_get_root::<Vec<(u16, Vec<u8>)>>(*height, *count)
+                    })
+                    .map(|(root, _)| root)
+                    .map_err(|e| invalid(e.to_string()))
+            }
+        }
+    }
+
+    /// Checks that a tree element and the root hash of its contents give the
+    /// value hash of its node.
+    fn verify_lower_layer_hash(
+        key: &[u8],
+        value_bytes: &[u8],
+        hash: &CryptoHash,
+        lower_hash: &CryptoHash,
+        query: &PathQuery,
+    ) -> Result<(), Error> {
+        let expected = combine_hash(value_hash(value_bytes).value(), lower_hash)
+            .value()
+            .to_owned();
+        if hash != &expected {
+            return Err(Error::InvalidProof(
+                query.clone(),
+                format!(
+                    "Mismatch in lower layer hash at key {}, expected {}, got {}",
+                    hex::encode(key),
+                    hex::encode(hash),
+                    hex::encode(expected)
+                ),
+            ));
+        }
+        Ok(())
+    }
+
     /// Verify an MMR lower layer proof and add results.
     /// Returns the computed MMR root hash, which the caller uses as the
     /// child hash for Merk authentication (`combine_hash(value_hash ||
@@ -1524,7 +1640,18 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // We are actually looking for the tree
+                                    // We are actually looking for the tree. Its
+                                    // contents are what binds the element to the hash
+                                    // of its node.
+                                    let lower_hash =
+                                        Self::merk_root_hash(&lower_layer.merk_proof, query)?;
+                                    Self::verify_lower_layer_hash(
+                                        key,
+                                        value_bytes,
+                                        hash,
+                                        &lower_hash,
+                                        query,
+                                    )?;
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
                                             path.iter().map(|p| p.to_vec()).collect(),
-- 
2.43.0


From 613d953eeed0721b650ac9d654ce242990a7e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 18/36] fix: a queried tree element that comes with a lower
 layer was given under its own path, so an absence query reported it missing,
 and its own type was given as its parent's

---
 grovedb/src/operations/proof/verify.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 77c3a3b..a9a275b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -544,7 +544,6 @@ impl GroveDb {
                             | Element::BulkAppendTree(..)
                             | Element::DenseAppendOnlyFixedSizeTree(..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // Query targets the tree itself, not its contents.
                                     // The contents are what binds the element to the
@@ -563,7 +562,7 @@ impl GroveDb {
                                     )?;
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     result.push(
@@ -577,6 +576,7 @@ impl GroveDb {
                                         break;
                                     }
                                 } else {
+                                    *last_parent_tree_type = element.tree_feature_type();
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
@@ -1638,7 +1638,6 @@ impl GroveDb {
                             | Element::ProvableCountTree(Some(_), ..)
                             | Element::ProvableCountSumTree(Some(_), ..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // We are actually looking for the tree. Its
                                     // contents are what binds the element to the hash
@@ -1654,7 +1653,7 @@ impl GroveDb {
                                     )?;
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     #[cfg(feature = "proof_debug")]
@@ -1676,6 +1675,7 @@ impl GroveDb {
                                         break;
                                     }
                                 } else {
+                                    *last_parent_tree_type = element.tree_feature_type();
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
-- 
2.43.0


From c24875578ef43d5389d9c0de5edb2701deb7500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 19/36] fix: version 0 proofs did not bind an item in a value
 hash node to its value hash, so any item could be shown for it

---
 merk/src/proofs/query/verify.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 0ab684e..ca49dfc 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -76,6 +76,18 @@ impl Default for VerifyOptions {
     }
 }
 
+/// An item element in a node which carries its value hash must have that hash.
+fn verify_simple_value_hash(value: &[u8], node_value_hash: &CryptoHash) -> Result<(), Error> {
+    let is_item = ElementType::from_serialized_value(value)
+        .is_ok_and(|element_type| element_type.has_simple_value_hash());
+    if is_item && value_hash(value).unwrap() != *node_value_hash {
+        return Err(Error::InvalidProofError(
+            "item element does not match the value hash of its node".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Extension trait adding proof verification methods to `Query`.
 ///
 /// These methods depend on merk-internal types (Node, Op, Decoder, etc.)
@@ -371,7 +383,8 @@ impl QueryProofVerify for Query {
                     // elements to prevent KV→KVValueHash forgery where an
                     // attacker substitutes a KV node with KVValueHash to inject
                     // a fake value while keeping the original hash.
-                    // Skipped for V0 backwards compatibility.
+                    // For V0 backwards compatibility they may be there as
+                    // long as the node commits to their value.
                     if proof_version >= 1 {
                         let element_type =
                             ElementType::from_serialized_value(value).map_err(|e| {
@@ -384,6 +397,8 @@ impl QueryProofVerify for Query {
                                 "KVValueHash node must not contain an item element".to_string(),
                             ));
                         }
+                    } else {
+                        verify_simple_value_hash(value, value_hash)?;
                     }
                     execute_node(key, Some(value), *value_hash, false)?;
                 }
@@ -421,7 +436,8 @@ impl QueryProofVerify for Query {
                         println!("Processing KVValueHashFeatureType node");
                     }
                     // Same check as KVValueHash — reject item elements.
-                    // Skipped for V0 backwards compatibility.
+                    // For V0 backwards compatibility they may be there as
+                    // long as the node commits to their value.
                     if proof_version >= 1 {
                         let element_type =
                             ElementType::from_serialized_value(value).map_err(|e| {
@@ -436,6 +452,8 @@ impl QueryProofVerify for Query {
                                     .to_string(),
                             ));
                         }
+                    } else {
+                        verify_simple_value_hash(value, value_hash)?;
                     }
                     execute_node(key, Some(value), *value_hash, false)?;
                 }
-- 
2.43.0


From eda9a76023677860cb4e00c17217ae6cccb77c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:46 +0000
Subject: [PATCH 20/36] fix: the order in which an MMR or dense tree proof
 lists its entries was the order of the results, so with a limit a proof could
 show another entry than the first

---
 grovedb/src/operations/proof/verify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index a9a275b..f0b0d9b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -930,9 +930,12 @@ impl GroveDb {
 
         // Compute root from the proof — the Merk child hash mechanism
         // authenticates this root via combine_hash(value_hash || mmr_root)
-        let (mmr_root, verified_leaves) = mmr_proof
+        let (mmr_root, mut verified_leaves) = mmr_proof
             .verify_and_get_root()
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
+        // The results, and what a limit leaves of them, follow the positions and
+        // not the order in which the proof lists them.
+        verified_leaves.sort_by_key(|(leaf_index, _)| *leaf_index);
 
         // Get the sub-query items for this path to enforce succinctness.
         let sub_query =
@@ -1212,7 +1215,9 @@ impl GroveDb {
         // verify_for_query validates height+count from the authenticated Element,
         // checks completeness (all queried positions present) and soundness
         // (no unrequested positions), then returns only matching entries.
-        let (computed_root, verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
+        // The results, and what a limit leaves of them, follow the positions and
+        // not the order in which the proof lists them.
+        let (computed_root, verified_entries): ([u8; 32], BTreeMap<u16, Vec<u8>>) = dense_proof
             .verify_for_query(&level_query, element_height, element_count)
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
-- 
2.43.0


From 068c25f68b4e292f2cce3a59e5fa6e6153723f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 21/36] fix: a version 0 trunk chunk proof with a count of zero
 was accepted without checking the element against the hash chain, so any
 count tree could be shown as empty

---
 grovedb/src/operations/proof/verify.rs | 109 +++++++++++++------------
 1 file changed, 58 insertions(+), 51 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index f0b0d9b..c7b83ef 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2243,59 +2243,41 @@ impl GroveDb {
             )
         })?;
 
-        // Empty tree — return an empty result.
-        // The parent layers' merk proofs already verified the hash chain integrity,
-        // including the element's value_hash. The count is authenticated by the
-        // parent proof. With count==0 there is no child data to verify against.
-        if count == 0 {
-            let grovedb_root_hash = grovedb_root_hash.ok_or_else(|| {
-                Error::InvalidProof(
-                    PathQuery::new_unsized(Vec::new(), Query::default()),
-                    "Empty path - no root hash computed".to_string(),
-                )
-            })?;
-
-            return Ok((
-                grovedb_root_hash,
-                GroveTrunkQueryResult {
-                    elements: BTreeMap::new(),
-                    leaf_keys: BTreeMap::new(),
-                    chunk_depths: vec![],
-                    max_tree_depth: 0,
-                    tree: grovedb_merk::proofs::tree::Tree::from(Node::Hash(NULL_HASH)),
-                },
-            ));
-        }
-
-        let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
-
-        // Now we're at the target layer - decode and execute the trunk proof
-        let mut decoder = Decoder::new(&current_layer.merk_proof);
-        let ops: Vec<Op> = decoder
-            .by_ref()
-            .collect::<Result<Vec<_>, _>>()
-            .map_err(|e| Error::CorruptedData(format!("Failed to decode trunk proof: {}", e)))?;
-        if decoder.remaining_bytes() > 0 {
-            return Err(Error::CorruptedData(format!(
-                "Trunk proof has {} unconsumed trailing bytes",
-                decoder.remaining_bytes()
-            )));
-        }
+        // Now we're at the target layer - decode and execute the trunk proof. An
+        // empty tree has no contents to prove, its root hash is the null hash.
+        let target_tree = if count == 0 {
+            None
+        } else {
+            let mut decoder = Decoder::new(&current_layer.merk_proof);
+            let ops: Vec<Op> = decoder
+                .by_ref()
+                .collect::<Result<Vec<_>, _>>()
+                .map_err(|e| {
+                    Error::CorruptedData(format!("Failed to decode trunk proof: {}", e))
+                })?;
+            if decoder.remaining_bytes() > 0 {
+                return Err(Error::CorruptedData(format!(
+                    "Trunk proof has {} unconsumed trailing bytes",
+                    decoder.remaining_bytes()
+                )));
+            }
 
-        // Execute the proof to build the tree structure and get its root hash
-        // Use collapse=false to preserve the full tree structure for element extraction
-        let target_tree = execute(ops.iter().map(|op| Ok(op.clone())), false, |_| Ok(()))
-            .unwrap()
-            .map_err(|e| {
-                Error::InvalidProof(
-                    PathQuery::new_unsized(current_path.clone(), Query::default()),
-                    format!("Failed to execute trunk proof: {}", e),
-                )
-            })?;
+            // Execute the proof to build the tree structure and get its root hash
+            // Use collapse=false to preserve the full tree structure for element extraction
+            let tree = execute(ops.iter().map(|op| Ok(op.clone())), false, |_| Ok(()))
+                .unwrap()
+                .map_err(|e| {
+                    Error::InvalidProof(
+                        PathQuery::new_unsized(current_path.clone(), Query::default()),
+                        format!("Failed to execute trunk proof: {}", e),
+                    )
+                })?;
+            Some(tree)
+        };
 
-        let mut lower_hash = target_tree.hash().unwrap();
+        let mut lower_hash = target_tree
+            .as_ref()
+            .map_or(NULL_HASH, |tree| tree.hash().unwrap());
 
         // Verify the cryptographic chain from trunk up through all layers
         // Walk backwards through the layer infos, verifying each step
@@ -2322,6 +2304,31 @@ impl GroveDb {
             lower_hash = layer_info.layer_root_hash;
         }
 
+        // Empty tree — return an empty result, now that the count is authenticated
+        let Some(target_tree) = target_tree else {
+            let grovedb_root_hash = grovedb_root_hash.ok_or_else(|| {
+                Error::InvalidProof(
+                    PathQuery::new_unsized(Vec::new(), Query::default()),
+                    "Empty path - no root hash computed".to_string(),
+                )
+            })?;
+
+            return Ok((
+                grovedb_root_hash,
+                GroveTrunkQueryResult {
+                    elements: BTreeMap::new(),
+                    leaf_keys: BTreeMap::new(),
+                    chunk_depths: vec![],
+                    max_tree_depth: 0,
+                    tree: grovedb_merk::proofs::tree::Tree::from(Node::Hash(NULL_HASH)),
+                },
+            ));
+        };
+
+        let tree_depth = calculate_max_tree_depth_from_count(count);
+        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
+            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+
         // Extract elements and leaf keys from the proof tree
         // The max depth for the trunk is the first chunk depth
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
-- 
2.43.0


From caf4f450d4e1d3cf2b4fd54cd2f7f734edbdc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 22/36] fix: the trunk chunk verifier ignored the query's
 minimum depth, so it refused honest proofs of provable count trees (exceeds
 max depth) and reported other chunk depths

---
 grovedb/src/operations/proof/verify.rs | 39 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index c7b83ef..8cd81ea 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1,7 +1,8 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use grovedb_merk::{
-    calculate_chunk_depths, calculate_max_tree_depth_from_count,
+    calculate_chunk_depths, calculate_chunk_depths_with_minimum,
+    calculate_max_tree_depth_from_count,
     element::tree_type::ElementTreeTypeExtensions,
     proofs::{
         execute,
@@ -2137,6 +2138,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: Option<CryptoHash> = None;
 
         // Walk through each path segment, verifying layer proofs
@@ -2184,6 +2186,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2326,8 +2332,7 @@ impl GroveDb {
         };
 
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(tree_depth, query, is_provable_count_tree)?;
 
         // Extract elements and leaf keys from the proof tree
         // The max depth for the trunk is the first chunk depth
@@ -2393,6 +2398,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: CryptoHash = [0u8; 32];
 
         // Walk through each path segment, verifying layer proofs
@@ -2441,6 +2447,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2524,9 +2534,7 @@ impl GroveDb {
         } else {
             let tree_depth = calculate_max_tree_depth_from_count(count);
             let _chunk_depths =
-                calculate_chunk_depths(tree_depth, query.max_depth).map_err(|e| {
-                    Error::CorruptedData(format!("invalid chunk depth parameters: {}", e))
-                })?;
+                Self::trunk_chunk_depths(tree_depth, query, is_provable_count_tree)?;
 
             let mut decoder = Decoder::new(target_merk_bytes);
             let ops: Vec<Op> = decoder
@@ -2600,8 +2608,7 @@ impl GroveDb {
         // Non-empty tree: extract elements
         let target_tree = target_tree_opt.unwrap();
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(tree_depth, query, is_provable_count_tree)?;
 
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
         let mut elements = BTreeMap::new();
@@ -2831,6 +2838,22 @@ impl GroveDb {
         }
     }
 
+    /// The depths of the chunks of a tree, which are those the prover uses: the
+    /// minimum depth of the query is for provable count trees only.
+    fn trunk_chunk_depths(
+        tree_depth: u8,
+        query: &PathTrunkChunkQuery,
+        is_provable_count_tree: bool,
+    ) -> Result<Vec<u8>, Error> {
+        match query.min_depth {
+            Some(min_depth) if is_provable_count_tree => {
+                calculate_chunk_depths_with_minimum(tree_depth, query.max_depth, min_depth)
+            }
+            _ => calculate_chunk_depths(tree_depth, query.max_depth),
+        }
+        .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))
+    }
+
     /// Extract the count from a CountTree, CountSumTree, ProvableCountTree,
     /// or ProvableCountSumTree element.
     fn extract_count_from_element(element: &Element) -> Option<u64> {
-- 
2.43.0


From f56b82ddf2abe960c8529acb9747bd1764126221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 23/36] fix: the height of a tree of 2^64-2 or more elements
 was given as 92, which needs more elements than that

---
 merk/src/proofs/branch/depth.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/merk/src/proofs/branch/depth.rs b/merk/src/proofs/branch/depth.rs
index 70e3325..1575759 100644
--- a/merk/src/proofs/branch/depth.rs
+++ b/merk/src/proofs/branch/depth.rs
@@ -52,8 +52,11 @@ pub fn calculate_max_tree_depth_from_count(count: u64) -> u8 {
 
     loop {
         // Calculate N(height+1) = F(height+3) - 1
-        let f_next = f_prev.saturating_add(f_curr);
-        let next_min_nodes = f_next.saturating_sub(1);
+        let Some(f_next) = f_prev.checked_add(f_curr) else {
+            // F(94) overflows u64, so no count is enough for height 92
+            return height;
+        };
+        let next_min_nodes = f_next - 1;
 
         if next_min_nodes > count {
             // height+1 would require more nodes than we have
@@ -64,11 +67,6 @@ pub fn calculate_max_tree_depth_from_count(count: u64) -> u8 {
         height += 1;
         f_prev = f_curr;
         f_curr = f_next;
-
-        // F(93) overflows u64, so cap at height 92
-        if height >= 92 {
-            return height;
-        }
     }
 }
 
-- 
2.43.0


From d295b5a2491b90ace2313403bcc926feb6e435c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 24/36] fix: terminal keys left out keys with an empty
 conditional branch, and gave keys of conditional branches that the query does
 not select or gave them twice

---
 grovedb-query/src/query.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..872485d 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -384,6 +384,13 @@ impl Query {
                 }
                 let conditional_keys = conditional_query_item.keys()?;
                 for key in conditional_keys.into_iter() {
+                    // a conditional branch does not select keys, and the first
+                    // one that matches a key is the one that is used for it
+                    if already_added_keys.contains(&key)
+                        || !self.items.iter().any(|item| item.contains(&key))
+                    {
+                        continue;
+                    }
                     if current_len > max_results {
                         return Err(Error::RequestAmountExceeded(format!(
                             "terminal keys limit exceeded for conditional subqueries, set max is \
@@ -442,6 +449,19 @@ impl Query {
                             subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
                         added += added_here;
                         current_len += added_here;
+                    } else {
+                        if current_len == max_results {
+                            return Err(Error::RequestAmountExceeded(format!(
+                                "terminal keys limit exceeded without conditional subquery or \
+                                 subquery path, set max is {max_results}, current length is \
+                                 {current_len}",
+                            )));
+                        }
+                        // neither a subquery path nor a subquery: the key
+                        // itself is terminal
+                        result.push((path, key));
+                        added += 1;
+                        current_len += 1;
                     }
                 }
             }
-- 
2.43.0


From f0ec69dfb986f170eb35e0b8c1e17f1b3b2e162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 25/36] fix: a layer was said to descend below a key whose
 conditional branch leads nowhere

---
 grovedb/src/query/mod.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..70b62a2 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -10,6 +10,7 @@ use std::{
     borrow::{Cow, Cow::Borrowed},
     cmp::Ordering,
     fmt,
+    ops::RangeFull,
 };
 
 use bincode::{Decode, Encode};
@@ -617,9 +618,13 @@ impl HasSubquery<'_> {
     pub fn has_subquery_on_key(&self, key: &[u8]) -> bool {
         match self {
             HasSubquery::NoSubquery => false,
+            // the first query item that matches decides
             HasSubquery::Conditionally(conditionally) => conditionally
-                .keys()
-                .any(|query_item| query_item.contains(key)),
+                .iter()
+                .find(|(query_item, _)| query_item.contains(key))
+                .is_some_and(|(_, branch)| {
+                    branch.subquery.is_some() || branch.subquery_path.is_some()
+                }),
             HasSubquery::Always => true,
         }
     }
@@ -696,14 +701,24 @@ impl<'a> SinglePathSubquery<'a> {
     }
 
     pub fn from_query(query: &Query) -> SinglePathSubquery<'_> {
-        let has_subquery = if query.default_subquery_branch.subquery.is_some()
-            || query.default_subquery_branch.subquery_path.is_some()
-        {
-            HasSubquery::Always
-        } else if let Some(conditional) = query.conditional_subquery_branches.as_ref() {
-            HasSubquery::Conditionally(Cow::Borrowed(conditional))
-        } else {
-            HasSubquery::NoSubquery
+        let leads_on =
+            |branch: &SubqueryBranch| branch.subquery.is_some() || branch.subquery_path.is_some();
+        let default_branch = &query.default_subquery_branch;
+        let has_subquery = match query.conditional_subquery_branches.as_ref() {
+            // a conditional branch that leads nowhere keeps its keys from the
+            // default branch
+            Some(conditional)
+                if leads_on(default_branch) && !conditional.values().all(leads_on) =>
+            {
+                let mut branches = conditional.clone();
+                branches
+                    .entry(QueryItem::RangeFull(RangeFull))
+                    .or_insert_with(|| default_branch.clone());
+                HasSubquery::Conditionally(Cow::Owned(branches))
+            }
+            _ if leads_on(default_branch) => HasSubquery::Always,
+            Some(conditional) => HasSubquery::Conditionally(Cow::Borrowed(conditional)),
+            None => HasSubquery::NoSubquery,
         };
         SinglePathSubquery {
             items: Cow::Borrowed(&query.items),
-- 
2.43.0


From 5f60644c6a0d2c5d8f89fb634f92cd910e8a97a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 26/36] fix: merged path queries lost the default subquery of a
 key that another query's path leads through, and keys only one query ends at
 got the other's default subquery

---
 grovedb-query/src/merge.rs | 34 +++++++++++++++++++++++++---------
 grovedb/src/query/mod.rs   |  7 ++++++-
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index c94efd2..c890e7b 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -567,7 +567,7 @@ impl Query {
     /// the default subquery, so the keys of the item that this query already
     /// searched for (`own_items`) first get the default subquery as a
     /// conditional one, for the branch to be merged with.
-    fn merge_subquery_branch_at_item(
+    pub fn merge_subquery_branch_at_item(
         &mut self,
         own_items: &[QueryItem],
         item: QueryItem,
@@ -575,16 +575,32 @@ impl Query {
     ) {
         let has_subquery =
             |branch: &SubqueryBranch| branch.subquery.is_some() || branch.subquery_path.is_some();
-        if has_subquery(&branch) && has_subquery(&self.default_subquery_branch) {
+        if has_subquery(&self.default_subquery_branch) {
             let conditional_subquery_branches =
                 self.conditional_subquery_branches.get_or_insert_default();
-            for shared in own_items
-                .iter()
-                .filter_map(|own| own.intersect(&item).in_both)
-            {
-                conditional_subquery_branches
-                    .entry(shared)
-                    .or_insert_with(|| self.default_subquery_branch.clone());
+            if has_subquery(&branch) {
+                for shared in own_items
+                    .iter()
+                    .filter_map(|own| own.intersect(&item).in_both)
+                {
+                    conditional_subquery_branches
+                        .entry(shared)
+                        .or_insert_with(|| self.default_subquery_branch.clone());
+                }
+            } else {
+                // the keys that are new to this query must not get its default
+                // subquery
+                let mut new_items = vec![item.clone()];
+                for own in own_items {
+                    new_items = new_items
+                        .iter()
+                        .map(|new_item| new_item.intersect(own))
+                        .flat_map(|parts| parts.ours_left.into_iter().chain(parts.ours_right))
+                        .collect();
+                }
+                for new_item in new_items {
+                    conditional_subquery_branches.entry(new_item).or_default();
+                }
             }
         }
         self.merge_conditional_boxed_subquery(item, branch);
diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 70b62a2..afe9770 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -240,6 +240,7 @@ impl PathQuery {
             let mut subquery_path =
                 subquery_path.ok_or(Error::CorruptedCodeExecution("subquery path must exist"))?;
             let key = subquery_path.remove(0); // must exist
+            let own_items = merged_query.items.clone();
             merged_query.insert_item(QueryItem::Key(key.clone()));
             let rest_of_path = if subquery_path.is_empty() {
                 None
@@ -250,7 +251,11 @@ impl PathQuery {
                 subquery_path: rest_of_path,
                 subquery,
             };
-            merged_query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            merged_query.merge_subquery_branch_at_item(
+                &own_items,
+                QueryItem::Key(key),
+                subquery_branch,
+            );
         }
 
         Ok(PathQuery::new_unsized(common_path, merged_query))
-- 
2.43.0


From 2afa846117c8870eab3496c78004ff9a47c0aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 27/36] fix: deleting a tree with entries used the deleted
 tree's type for the tree it is in, and left a stale root key when it was the
 root of the root tree

---
 grovedb/src/operations/delete/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7ea2184..28cd633 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -747,7 +747,7 @@ impl GroveDb {
             )
         );
         let uses_sum_tree = subtree_to_delete_from.tree_type;
-        if let Some(tree_type) = element.tree_type() {
+        if element.is_any_tree() {
             let subtree_merk_path = path.derive_owned_with_child(key);
             let subtree_merk_path_ref = SubtreePath::from(&subtree_merk_path);
 
@@ -844,16 +844,27 @@ impl GroveDb {
                     .get_transactional_storage_context(path.clone(), Some(batch), transaction)
                     .unwrap_add_cost(&mut cost);
 
-                let mut merk_to_delete_tree_from = cost_return_on_error!(
-                    &mut cost,
+                // the merk to delete from keeps its own tree type (not the type of the tree
+                // being deleted), and the base merk must update its stored root key
+                let opened = if path.is_root() {
+                    Merk::open_base(
+                        storage,
+                        uses_sum_tree,
+                        Some(&Element::value_defined_cost_for_serialized_value),
+                        grove_version,
+                    )
+                } else {
                     Merk::open_layered_with_root_key(
                         storage,
                         subtree_to_delete_from.root_key(),
-                        tree_type,
+                        uses_sum_tree,
                         Some(&Element::value_defined_cost_for_serialized_value),
                         grove_version,
                     )
-                    .map_err(|e| {
+                };
+                let mut merk_to_delete_tree_from = cost_return_on_error!(
+                    &mut cost,
+                    opened.map_err(|e| {
                         Error::CorruptedData(format!(
                             "cannot open a subtree with given root key: {e}"
                         ))
-- 
2.43.0


From a955f31ced46d576b59c1562764abd85454d7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 28/36] fix: references in provable count sum trees were proved
 without the count the node hash commits to, so honest proofs were refused

---
 grovedb/src/operations/proof/generate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 2f3c8cc..0068527 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -319,7 +319,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
@@ -1033,7 +1034,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
-- 
2.43.0


From d828b875908840e331938657fae1efc8423aff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 29/36] fix: prover and verifier counted empty trees
 differently against the limit, so honest proofs of limited queries over empty
 trees were refused

---
 grovedb/src/operations/proof/generate.rs | 14 ++++++++++++--
 grovedb/src/operations/proof/verify.rs   | 22 ++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 0068527..e014104 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -496,7 +496,12 @@ impl GroveDb {
                                         query
                                     );
                                 }
-                                if let Some(limit) = overall_limit.as_mut() {
+                                // an empty tree that is descended into is an empty
+                                // sub query result
+                                if (prove_options.decrease_limit_on_empty_sub_query_result
+                                    || !query.has_subquery_or_matching_in_path_on_key(key))
+                                    && let Some(limit) = overall_limit.as_mut()
+                                {
                                     *limit -= 1;
                                 }
                                 has_a_result_at_level |= true;
@@ -1332,7 +1337,12 @@ impl GroveDb {
                             | Ok(Element::CommitmentTree(..))
                                 if !done_with_results =>
                             {
-                                if let Some(limit) = overall_limit.as_mut() {
+                                // an empty tree that is descended into is an empty
+                                // sub query result
+                                if (prove_options.decrease_limit_on_empty_sub_query_result
+                                    || !query.has_subquery_or_matching_in_path_on_key(key))
+                                    && let Some(limit) = overall_limit.as_mut()
+                                {
                                     *limit -= 1;
                                 }
                                 has_a_result_at_level |= true;
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 8cd81ea..7b2e69c 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -745,6 +745,17 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else if prove_options.decrease_limit_on_empty_sub_query_result
+                        || !internal_query.has_subquery_or_matching_in_path_on_key(key)
+                    {
+                        // an empty tree that is not shown uses up the limit, as it does
+                        // when the proof is made
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
@@ -1829,6 +1840,17 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else if prove_options.decrease_limit_on_empty_sub_query_result
+                        || !internal_query.has_subquery_or_matching_in_path_on_key(key)
+                    {
+                        // an empty tree that is not shown uses up the limit, as it does
+                        // when the proof is made
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From e84dba9abc7b2a225cbdf7e1890684a20789cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 30/36] fix: a batch that inserts a tree and elements into it
 replaced an existing tree even where insertions must not override

---
 grovedb/src/batch/mod.rs | 92 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f01baaf..307a6d7 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1132,6 +1132,20 @@ trait TreeCache<G, SR> {
         root_key: Option<Vec<u8>>,
         grove_version: &GroveVersion,
     ) -> CostResult<(), Error>;
+
+    /// A tree insertion whose tree also receives elements in the same batch is
+    /// turned into an insertion of the tree with its root hash. This checks,
+    /// before that, that the insertion does not override what it must not.
+    fn check_insertion_of_filled_tree(
+        &mut self,
+        _path: &KeyInfoPath,
+        _key: &KeyInfo,
+        _op: &GroveOp,
+        _batch_apply_options: &BatchApplyOptions,
+        _grove_version: &GroveVersion,
+    ) -> CostResult<(), Error> {
+        Ok(()).wrap_with_cost(OperationCost::default())
+    }
 }
 
 impl<'db, S, F> TreeCacheMerkByPath<S, F>
@@ -1763,6 +1777,65 @@ where
             .map_err(|e| Error::InternalError(format!("unable to set base root key: {e}")))
     }
 
+    fn check_insertion_of_filled_tree(
+        &mut self,
+        path: &KeyInfoPath,
+        key: &KeyInfo,
+        op: &GroveOp,
+        batch_apply_options: &BatchApplyOptions,
+        grove_version: &GroveVersion,
+    ) -> CostResult<(), Error> {
+        let mut cost = OperationCost::default();
+        let must_be_absent = batch_apply_options.validate_insertion_does_not_override
+            || matches!(op, GroveOp::InsertIfNotExists { .. });
+        if !must_be_absent && !batch_apply_options.validate_insertion_does_not_override_tree {
+            return Ok(()).wrap_with_cost(cost);
+        }
+
+        let path = path.to_path();
+        let merk = match self.merks.entry(path.clone()) {
+            HashMapEntry::Occupied(o) => o.into_mut(),
+            HashMapEntry::Vacant(v) => v.insert(cost_return_on_error!(
+                &mut cost,
+                (self.get_merk_fn)(&path, false)
+            )),
+        };
+        let maybe_existing = cost_return_on_error!(
+            &mut cost,
+            merk.get(
+                key.as_slice(),
+                true,
+                Some(&Element::value_defined_cost_for_serialized_value),
+                grove_version,
+            )
+            .map_err(|e| {
+                Error::CorruptedData(format!("unable to check for existing element: {e}"))
+            })
+        );
+        let Some(existing_bytes) = maybe_existing else {
+            return Ok(()).wrap_with_cost(cost);
+        };
+        if must_be_absent {
+            return Err(Error::InvalidBatchOperation(
+                "attempting to insert subtree that already exists",
+            ))
+            .wrap_with_cost(cost);
+        }
+        let existing_element = cost_return_on_error_no_add!(
+            cost,
+            Element::deserialize(existing_bytes.as_slice(), grove_version).map_err(|_| {
+                Error::CorruptedData("unable to deserialize existing element".to_string())
+            })
+        );
+        if existing_element.is_any_tree() {
+            return Err(Error::InvalidBatchOperation(
+                "attempting to overwrite a tree",
+            ))
+            .wrap_with_cost(cost);
+        }
+        Ok(()).wrap_with_cost(cost)
+    }
+
     fn execute_ops_on_path(
         &mut self,
         path: &KeyInfoPath,
@@ -2564,6 +2637,25 @@ impl GroveDb {
                                         }
                                         Entry::Occupied(occupied_entry) => {
                                             let mutable_occupied_entry = occupied_entry.into_mut();
+                                            if matches!(
+                                                mutable_occupied_entry,
+                                                GroveOp::InsertOrReplace { .. }
+                                                    | GroveOp::InsertWithKnownToNotAlreadyExist { .. }
+                                                    | GroveOp::InsertIfNotExists { .. }
+                                                    | GroveOp::Replace { .. }
+                                                    | GroveOp::Patch { .. }
+                                            ) {
+                                                cost_return_on_error!(
+                                                    &mut cost,
+                                                    merk_tree_cache.check_insertion_of_filled_tree(
+                                                        &parent_path,
+                                                        key,
+                                                        mutable_occupied_entry,
+                                                        &batch_apply_options,
+                                                        grove_version,
+                                                    )
+                                                );
+                                            }
                                             match mutable_occupied_entry {
                                                 GroveOp::ReplaceTreeRootKey {
                                                     hash,
-- 
2.43.0


From c0b1553e2b915ac24c674dd178b7965be1d0585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 31/36] fix: a reference inserted by a batch replaced a tree
 although insertions must not override trees

---
 grovedb/src/batch/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 307a6d7..616a9e5 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1886,10 +1886,8 @@ where
                         _ => unreachable!(),
                     };
 
-                    // Check tree-override protection for all non-reference elements.
-                    if batch_apply_options.validate_insertion_does_not_override_tree
-                        && !matches!(&element, Element::Reference(..))
-                    {
+                    // Check tree-override protection for all elements.
+                    if batch_apply_options.validate_insertion_does_not_override_tree {
                         let merk = self.merks.get_mut(path).expect("the Merk is cached");
                         let maybe_existing = cost_return_on_error_into!(
                             &mut cost,
-- 
2.43.0


From 4b7084b5cc4d1dca3b8156e9196b8d8127cb739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 32/36] fix: a reference to an element whose insertion is
 skipped was bound to the value that is not inserted

---
 grovedb/src/batch/mod.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 616a9e5..cc091bd 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1369,6 +1369,19 @@ where
         }
     }
 
+    /// Whether there is an element at a qualified path before the batch.
+    fn element_is_stored(
+        &mut self,
+        qualified_path: &[Vec<u8>],
+        grove_version: &GroveVersion,
+    ) -> CostResult<bool, Error> {
+        let (key, path) = qualified_path
+            .split_last()
+            .expect("path validated non-empty above");
+        self.get_and_deserialize_referenced_element(key, path, grove_version)
+            .map_ok(|stored| stored.is_some())
+    }
+
     /// Processes a reference with a hop count greater than one, handling the
     /// retrieval and further processing of the referenced element.
     ///
@@ -1641,6 +1654,27 @@ where
                         }
                     }
                 }
+                GroveOp::InsertIfNotExists {
+                    error_if_exists: false,
+                    ..
+                } if cost_return_on_error!(
+                    &mut cost,
+                    self.element_is_stored(qualified_path, grove_version)
+                ) =>
+                {
+                    // The insertion will be skipped, what is stored stays
+                    self.process_reference(
+                        qualified_path,
+                        ops_by_qualified_paths,
+                        recursions_allowed,
+                        None,
+                        flags_update,
+                        split_removal_bytes,
+                        visited,
+                        grove_version,
+                    )
+                    .add_cost(cost)
+                }
                 GroveOp::InsertWithKnownToNotAlreadyExist { element }
                 | GroveOp::InsertIfNotExists { element, .. } => match element {
                     Element::Item(..) | Element::SumItem(..) | Element::ItemWithSumItem(..) => {
-- 
2.43.0


From ff82e9ff539203463a58efc123b404de77443ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 33/36] fix: a batch accepted references to elements of a tree
 it deletes

---
 grovedb/src/batch/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index cc091bd..e4a8cc2 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1546,6 +1546,18 @@ where
         if !visited.insert(path_vec) {
             return Err(Error::CyclicReference).wrap_with_cost(cost);
         }
+        // What is in a tree that is deleted in the same batch goes with it
+        if (1..qualified_path.len()).any(|depth| {
+            matches!(
+                ops_by_qualified_paths.get(&qualified_path[..depth]),
+                Some(GroveOp::Delete | GroveOp::DeleteTree(..))
+            )
+        }) {
+            return Err(Error::InvalidBatchOperation(
+                "references can not point to something currently being deleted",
+            ))
+            .wrap_with_cost(cost);
+        }
         // If the element being referenced changes in the same batch
         // we need to set the value_hash based on the new change and not the old state.
 
-- 
2.43.0


From 27f229eb250104b2e48ca16b0e2f151e3687134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:13 +0000
Subject: [PATCH 34/36] fix: references made after a partial batch pauses were
 bound to values from before the batch

---
 grovedb/src/batch/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index e4a8cc2..59795e6 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -3023,6 +3023,7 @@ impl GroveDb {
     fn continue_partial_apply_body<'db, S: StorageContext<'db>>(
         &self,
         previous_leftover_operations: Option<OpsByLevelPath>,
+        previous_ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp>,
         additional_ops: Vec<QualifiedGroveDbOp>,
         batch_apply_options: Option<BatchApplyOptions>,
         update_element_flags_function: impl FnMut(
@@ -3049,7 +3050,7 @@ impl GroveDb {
                 .continue_partial_apply_body
         );
         let mut cost = OperationCost::default();
-        let batch_structure = cost_return_on_error!(
+        let mut batch_structure = cost_return_on_error!(
             &mut cost,
             BatchStructure::continue_from_ops(
                 previous_leftover_operations,
@@ -3062,6 +3063,14 @@ impl GroveDb {
                 }
             )
         );
+        // What was done before the pause is not in the storage yet, references
+        // need to know of it
+        for (qualified_path, op) in previous_ops_by_qualified_paths {
+            batch_structure
+                .ops_by_qualified_paths
+                .entry(qualified_path)
+                .or_insert(op);
+        }
         Self::apply_batch_structure(batch_structure, batch_apply_options, grove_version)
             .add_cost(cost)
     }
@@ -4115,6 +4124,15 @@ impl GroveDb {
             batch_apply_options.batch_pause_height = Some(1);
         }
 
+        let previous_ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp> = ops
+            .iter()
+            .filter_map(|op| {
+                let mut qualified_path = op.path.to_path();
+                qualified_path.push(op.key.as_ref()?.get_key_clone());
+                Some((qualified_path, op.op.clone()))
+            })
+            .collect();
+
         // With the only one difference (if there is a transaction) do the following:
         // 2. If nothing left to do and we were on a non-leaf subtree or we're done with
         //    one subtree and moved to another then add propagation operation to the
@@ -4202,6 +4220,7 @@ impl GroveDb {
             &mut cost,
             self.continue_partial_apply_body(
                 left_over_operations,
+                previous_ops_by_qualified_paths,
                 new_operations,
                 Some(batch_apply_options),
                 update_element_flags_function,
-- 
2.43.0


From 33505bd7cf8c553d70c631db5df4023e95129d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 35/36] fix: a failure to read a subtree's parent was taken for
 the absence of the subtree

---
 grovedb/src/util/compat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/util/compat.rs b/grovedb/src/util/compat.rs
index 8312c67..8ff50c6 100644
--- a/grovedb/src/util/compat.rs
+++ b/grovedb/src/util/compat.rs
@@ -49,7 +49,13 @@ where
         let element = cost_return_on_error!(
             &mut cost,
             Element::get_from_storage(&parent_storage, parent_key, grove_version)
-                .map_err(|e| C::parent_key_not_found(e.into(), parent_path, parent_key))
+                .map_err(|e| match e.into() {
+                    e @ Error::PathKeyNotFound(_) => {
+                        C::parent_key_not_found(e, parent_path, parent_key)
+                    }
+                    // a failure to read the parent does not mean that there is none
+                    e => e,
+                })
         );
         if let Some((root_key, tree_type)) = element.root_key_and_tree_type_owned() {
             Merk::open_layered_with_root_key(
-- 
2.43.0


From 5b780bb895658d47e344ccecb369688161d47415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 36/36] fix: a batch that appends two equal values to an
 append-only tree was refused as repeating an operation

---
 grovedb/src/batch/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 59795e6..6ccf6eb 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -944,7 +944,9 @@ impl QualifiedGroveDbOp {
         let mut repeated_ops = internal_only_ops;
         {
             let mut op_counts: HashMap<&QualifiedGroveDbOp, u16> = HashMap::new();
-            for op in ops.iter() {
+            // Equal values may be appended twice: keyless ops (append-only tree
+            // ops) do not repeat each other.
+            for op in ops.iter().filter(|op| op.key.is_some()) {
                 *op_counts.entry(op).or_insert(0) += 1;
             }
             for (op, count) in op_counts {
-- 
2.43.0

