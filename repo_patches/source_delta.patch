From 1c33c3fc608eedf0a56086dd563586914555e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 01/16] fix: return original node IDs from
 NodeIdSetVecResult::involved_nodes

---
 src/analysis/results.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..93fd16b 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,12 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved_nodes = involved_nodes(&self.node_sets);
+        if let Some(unshrink_table) = &self.unshrink_table {
+            unshrink_set(&involved_nodes, unshrink_table)
+        } else {
+            involved_nodes
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From 1e74ed009d79530f29a17530f608055bf32f5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 02/16] fix: test minimality of a cluster's blocking sets
 against the rest of the cluster

---
 src/analysis/blocking_sets.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index e935948..cfd7486 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -118,7 +118,12 @@ impl QuorumSet {
     fn to_minimal_blocking_sets(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
         let blocking_sets = self.to_blocking_sets();
         if self.contains_duplicates() {
-            remove_non_minimal_x(blocking_sets, is_minimal_for_blocking_set, fbas)
+            let cluster = self.contained_nodes();
+            remove_non_minimal_x(
+                blocking_sets,
+                |blocking_set, fbas| is_minimal_for_blocking_set(blocking_set, &cluster, fbas),
+                fbas,
+            )
         } else {
             blocking_sets
         }
@@ -165,10 +170,14 @@ impl QuorumSet {
     }
 }
 
-fn is_minimal_for_blocking_set(blocking_set: &NodeIdSet, fbas: &Fbas) -> bool {
-    let mut blocked_set = fbas.all_nodes();
-    blocked_set.difference_with(&blocking_set);
-    is_minimal_for_blocking_set_with_precomputed_blocked_set(blocking_set, &blocking_set, fbas)
+fn is_minimal_for_blocking_set(
+    blocking_set: &NodeIdSet,
+    cluster: &NodeIdSet,
+    fbas: &Fbas,
+) -> bool {
+    let mut blocked_set = cluster.clone();
+    blocked_set.difference_with(blocking_set);
+    is_minimal_for_blocking_set_with_precomputed_blocked_set(blocking_set, &blocked_set, fbas)
 }
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
     blocking_set: &NodeIdSet,
-- 
2.43.0


From 3b6b380e5e0173afcda9da31d3159a0b7866bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 03/16] fix: report each minimal set of a cluster with
 duplicates only once

---
 src/analysis/sets.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/analysis/sets.rs b/src/analysis/sets.rs
index 60e40f1..3cf6244 100644
--- a/src/analysis/sets.rs
+++ b/src/analysis/sets.rs
@@ -99,7 +99,7 @@ pub fn remove_non_minimal_node_sets(mut node_sets: Vec<NodeIdSet>) -> Vec<NodeId
 }
 
 pub(crate) fn remove_non_minimal_x<F>(
-    node_sets: Vec<NodeIdSet>,
+    mut node_sets: Vec<NodeIdSet>,
     is_minimal: F,
     fbas: &Fbas,
 ) -> Vec<NodeIdSet>
@@ -108,6 +108,9 @@ where
 {
     let mut minimal_x = vec![];
 
+    node_sets.sort_unstable();
+    node_sets.dedup();
+
     debug!("Filtering out non-minimal node sets...");
     for (i, node_set) in node_sets.into_iter().enumerate() {
         if i % 100_000 == 0 {
-- 
2.43.0


From 819aa5bf627c711437d694c0b9d541cb7680f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 04/16] fix: ignore unsatisfiable inner quorum sets when
 extracting blocking sets

---
 src/analysis/blocking_sets.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index cfd7486..18c759e 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -138,8 +138,7 @@ impl QuorumSet {
                 .map(|&node_id| vec![bitset![node_id]]),
         );
         subslice_groups.extend(
-            self.inner_quorum_sets
-                .iter()
+            self.satisfiable_inner_quorum_sets()
                 .map(|qset| qset.to_blocking_sets()),
         );
         subslice_groups
@@ -161,9 +160,16 @@ impl QuorumSet {
             })
             .concat()
     }
+    /// Inner quorum sets that can't be satisfied by any nodes are blocked already.
+    pub(super) fn satisfiable_inner_quorum_sets(&self) -> impl Iterator<Item = &QuorumSet> {
+        self.inner_quorum_sets
+            .iter()
+            .filter(|qset| qset.is_quorum_slice(&qset.contained_nodes()))
+    }
     fn blocking_threshold(&self) -> usize {
-        if self.validators.len() + self.inner_quorum_sets.len() >= self.threshold {
-            self.validators.len() + self.inner_quorum_sets.len() - self.threshold + 1
+        let members = self.validators.len() + self.satisfiable_inner_quorum_sets().count();
+        if members >= self.threshold {
+            members - self.threshold + 1
         } else {
             0
         }
-- 
2.43.0


From eb28919cb15aa6d55b1723e6e5897fa53849f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 05/16] fix: handle split, unsatisfiable and repeated members
 when extracting splitting sets

---
 src/analysis/splitting_sets.rs | 56 +++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..69f63ad 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -25,9 +25,12 @@ fn minimal_splitting_sets_finder(
     for (i, nodes) in consensus_clusters.into_iter().enumerate() {
         debug!("Finding minimal splitting sets in cluster {}...", i);
 
-        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
+        // the intersections of slices can't be read off a quorum set that contains nodes repeatedly
+        let symmetric_cluster = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas)
+            .filter(|symmetric_cluster| !symmetric_cluster.contains_duplicates());
+        if let Some(symmetric_cluster) = symmetric_cluster {
             debug!("Cluster contains a symmetric quorum cluster! Extracting splitting sets...");
-            found_splitting_sets.append(&mut symmetric_cluster.to_minimal_splitting_sets());
+            found_splitting_sets.append(&mut symmetric_cluster.to_splitting_sets());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -152,18 +155,22 @@ impl QuorumSet {
             found_validator_matches + found_inner_quorum_set_matches == splitting_threshold
         }
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
-    fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
-        let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
-            remove_non_minimal_node_sets(splitting_sets)
+    /// If `self` represents a symmetric quorum cluster without duplicate nodes, this function returns all minimal splitting sets of the induced FBAS.
+    fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
+        let potential_splitting_sets = self.to_potential_splitting_sets();
+        // check to see if we aren't really a 1-quorum quorum set or split already
+        if potential_splitting_sets.len() == 1
+            && (potential_splitting_sets[0].is_empty()
+                || self.is_quorum_slice(&potential_splitting_sets[0]))
+        {
+            vec![]
         } else {
-            splitting_sets
+            potential_splitting_sets
         }
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
-    /// but perhaps also a few extra...
-    fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
+    /// The smallest sets of nodes that two slices can have in common. One empty set if there are
+    /// disjoint slices.
+    fn to_potential_splitting_sets(&self) -> Vec<NodeIdSet> {
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
@@ -171,13 +178,21 @@ impl QuorumSet {
                 .map(|&node_id| vec![bitset![node_id]]),
         );
         subslice_groups.extend(
-            self.inner_quorum_sets
-                .iter()
-                .map(|qset| qset.to_splitting_sets()),
+            self.satisfiable_inner_quorum_sets()
+                .map(|qset| qset.to_potential_splitting_sets()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        let common_members = (2 * self.threshold).saturating_sub(subslice_groups.len());
+        // common members that don't need to have any node in common
+        let (split_groups, subslice_groups): (Vec<_>, Vec<_>) = subslice_groups
             .into_iter()
-            .combinations(self.splitting_threshold())
+            .partition(|group| group.iter().any(|set| set.is_empty()));
+        let common_members = common_members.saturating_sub(split_groups.len());
+        if common_members == 0 {
+            return vec![bitset![]];
+        }
+        subslice_groups
+            .into_iter()
+            .combinations(common_members)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -192,14 +207,7 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
     }
     fn splitting_threshold(&self) -> usize {
         if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-- 
2.43.0


From 111023563310d31bcb5ea704447c8af447fc547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 06/16] fix: don't overflow or allocate for quorum sets with
 huge thresholds

---
 src/analysis/splitting_sets.rs | 13 +++++++------
 src/core_types/quorum_set.rs   |  3 +++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 69f63ad..3cb836f 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -181,7 +181,10 @@ impl QuorumSet {
             self.satisfiable_inner_quorum_sets()
                 .map(|qset| qset.to_potential_splitting_sets()),
         );
-        let common_members = (2 * self.threshold).saturating_sub(subslice_groups.len());
+        let common_members = self
+            .threshold
+            .saturating_mul(2)
+            .saturating_sub(subslice_groups.len());
         // common members that don't need to have any node in common
         let (split_groups, subslice_groups): (Vec<_>, Vec<_>) = subslice_groups
             .into_iter()
@@ -210,11 +213,9 @@ impl QuorumSet {
             .concat()
     }
     fn splitting_threshold(&self) -> usize {
-        if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-            2 * self.threshold - (self.validators.len() + self.inner_quorum_sets.len())
-        } else {
-            0
-        }
+        self.threshold
+            .saturating_mul(2)
+            .saturating_sub(self.validators.len() + self.inner_quorum_sets.len())
     }
 }
 
diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index ac834de..721448d 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -61,6 +61,9 @@ impl QuorumSet {
                 .iter()
                 .map(|qset| qset.to_quorum_slices()),
         );
+        if self.threshold > subslice_groups.len() {
+            return vec![]; // not satisfiable
+        }
         subslice_groups
             .into_iter()
             .combinations(self.threshold)
-- 
2.43.0


From 4c493972f20ffec9e3b2ee08e77335d10ced21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 07/16] fix: alternative quorum intersection check on FBASs
 without quorums

---
 src/analysis/front_end.rs | 4 +++-
 src/analysis/quorums.rs   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..bc71142 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -68,7 +68,9 @@ impl Analysis {
                 Some(self.make_shrunken_set_vec_result(quorums.to_vec())),
             )
         } else {
-            (true, None)
+            // no quorums => no quorum intersection
+            let has_quorums = !self.fbas_shrunken.borrow().satisfiable_nodes().is_empty();
+            (has_quorums, None)
         }
     }
     /// Minimal quorums - no proper subset of any of these node sets is a quorum.
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..c7f3141 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -116,6 +116,9 @@ fn nonintersecting_quorums_finder(
             .into_iter()
             .map(|node_set| find_satisfiable_nodes(&node_set, fbas).0)
             .collect()
+    } else if consensus_clusters.is_empty() {
+        debug!("No consensus clusters - there are no quorums.");
+        vec![]
     } else {
         warn!("There is only one consensus cluster - there might be no non-intersecting quorums and the subsequent search might be slow.");
         let nodes = consensus_clusters.into_iter().next().unwrap_or_default();
-- 
2.43.0


From 595c39165e25ecda3dfcb9a2b09ab5a1c9800a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 08/16] fix: don't lose inner quorum sets when merging quorum
 sets by group

---
 src/analysis/merge_by_group.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analysis/merge_by_group.rs b/src/analysis/merge_by_group.rs
index 93aeb3f..70cf1c8 100644
--- a/src/analysis/merge_by_group.rs
+++ b/src/analysis/merge_by_group.rs
@@ -36,14 +36,17 @@ impl<'fbas> Groupings<'fbas> {
                 .inner_quorum_sets
                 .into_iter()
                 .map(|q| self.merge_quorum_set(q))
-                .partition(|q| q.validators.len() == 1);
+                .partition(|q| q.validators.len() == 1 && q.inner_quorum_sets.is_empty());
 
         validators.extend(
             new_validator_candidates
                 .into_iter()
                 .map(|q| q.validators[0]),
         );
-        if !validators.is_empty() && validators.iter().all(|&v| v == validators[0]) {
+        if !validators.is_empty()
+            && inner_quorum_sets.is_empty()
+            && validators.iter().all(|&v| v == validators[0])
+        {
             validators = vec![validators[0]];
             threshold = 1;
         }
-- 
2.43.0


From ec6f49a0d72616c0b23d1d5e48c167bd2fddfaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 09/16] fix: don't panic on empty or non-ASCII ISP and country
 names

---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From a07508b59e1e8189cca87ef3c896fbebfdb0047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 10/16] fix: look up the public keys of a reduced FBAS in that
 FBAS

---
 src/core_types/shrinking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..0acf526 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,12 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = fbas_shrunken
+            .nodes
+            .iter()
+            .enumerate()
+            .map(|(id, node)| (node.public_key.clone(), id))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From 3eb31217408b442adc4ef0a1f0bd362cf82caff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 11/16] fix: return errors while writing a graph file to the
 caller

---
 src/io/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 7bf6451..5b2d211 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -49,8 +49,8 @@ impl Graph {
     ) -> std::io::Result<()> {
         let file = File::create(&path)?;
         let mut compresser = write::BzEncoder::new(file, Compression::Default);
-        let graph_as_string = Self::to_as_rel_string(graph, head_comment).unwrap();
-        compresser.write_all(graph_as_string.as_bytes()).unwrap();
+        let graph_as_string = Self::to_as_rel_string(graph, head_comment)?;
+        compresser.write_all(graph_as_string.as_bytes())?;
         compresser.finish()?;
         Ok(())
     }
-- 
2.43.0


From 17ead0d5144ae73e1ee04bcaea0522fee01c5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 12/16] fix: report changes by the random configurator
 truthfully

---
 src/simulation/qsc/random.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..d4819f3 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -24,17 +24,15 @@ impl RandomQsc {
 impl QuorumSetConfigurator for RandomQsc {
     fn configure(&self, node_id: NodeId, fbas: &mut Fbas) -> ChangeEffect {
         let n = fbas.nodes.len();
+        let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
 
-        // we add nodes to their own quorum sets, for better comparability with other Qsc
-        if existing_quorum_set.validators.is_empty() {
-            existing_quorum_set.validators = vec![node_id];
-        }
-
-        let current_quorum_set_size = existing_quorum_set.validators.len();
-
-        if current_quorum_set_size < self.desired_quorum_set_size {
-            let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
+        if existing_quorum_set.validators.len() < target_quorum_set_size {
+            // we add nodes to their own quorum sets, for better comparability with other Qsc
+            if existing_quorum_set.validators.is_empty() {
+                existing_quorum_set.validators = vec![node_id];
+            }
+            let current_quorum_set_size = existing_quorum_set.validators.len();
 
             let threshold = self
                 .desired_threshold
-- 
2.43.0


From 02058fba2f3b9347ad55645a9da2ea74f2a796d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 13/16] fix: don't report a change if there are no top-tier
 nodes to configure

---
 src/simulation/qsc/graph_based/global_ranking_based.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/graph_based/global_ranking_based.rs b/src/simulation/qsc/graph_based/global_ranking_based.rs
index 196e1df..aa7d2c8 100644
--- a/src/simulation/qsc/graph_based/global_ranking_based.rs
+++ b/src/simulation/qsc/graph_based/global_ranking_based.rs
@@ -38,7 +38,10 @@ impl GlobalRankQsc {
 impl QuorumSetConfigurator for GlobalRankQsc {
     fn configure(&self, node_id: NodeId, fbas: &mut Fbas) -> ChangeEffect {
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
-        if *existing_quorum_set == QuorumSet::new() && !self.graph.outlinks[node_id].is_empty() {
+        if *existing_quorum_set == QuorumSet::new()
+            && !self.graph.outlinks[node_id].is_empty()
+            && !self.top_tier_nodes.is_empty()
+        {
             let validators = self.top_tier_nodes.clone();
 
             let threshold = calculate_threshold(validators.len(), self.relative_threshold);
-- 
2.43.0


From c8f4bc11a18a90d5833093ccdbfe332baf4629ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 14/16] fix: bulk tools: finish all analyses before truncating
 a file that is updated

In update mode the output file was truncated before the analyses ran, so that a
panic in one of them (e.g. on a malformed input file) lost the existing rows.
---
 src/bin/bulk_fbas_analyzer.rs          | 8 +++++++-
 src/bin/bulk_performance_experiment.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index df78e56..3c51be2 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -61,7 +61,13 @@ fn main() -> Result<(), Box<dyn Error>> {
     let tasks = make_sorted_tasklist(inputs, existing_outputs);
 
     let output_iterator = bulk_do(tasks, args.jobs);
-    write_csv(output_iterator, &args.output_path, args.update)?;
+    if args.update {
+        // an existing file must not be truncated before all of its new contents are known
+        let outputs: Vec<OutputDataPoint> = output_iterator.collect();
+        write_csv(outputs, &args.output_path, args.update)?;
+    } else {
+        write_csv(output_iterator, &args.output_path, args.update)?;
+    }
     Ok(())
 }
 
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 46e95b7..00a2535 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -67,8 +67,13 @@ fn main() -> Result<(), Box<dyn Error>> {
     let tasks = make_sorted_tasklist(inputs, existing_outputs);
 
     let output_iterator = bulk_do(tasks, args.jobs, args.stellar_like);
-
-    write_csv(output_iterator, &args.output_path, args.update)?;
+    if args.update {
+        // an existing file must not be truncated before all of its new contents are known
+        let outputs: Vec<OutputDataPoint> = output_iterator.collect();
+        write_csv(outputs, &args.output_path, args.update)?;
+    } else {
+        write_csv(output_iterator, &args.output_path, args.update)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 82dd80eda2bdb2d853562ef8cf70a7e4f1b09e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 15/16] fix: write links of a node to itself to AS relationship
 files

---
 src/io/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 5b2d211..662460d 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -62,7 +62,7 @@ impl Graph {
         for i in 0..graph.number_of_nodes() {
             for &j in &graph.outlinks[i] {
                 let is_undirected = graph.outlinks[j].contains(&i);
-                if is_undirected && i < j {
+                if is_undirected && i <= j {
                     graph_as_string.push_str(&format!("{}|{}|0\n", i, j));
                 } else if !is_undirected {
                     graph_as_string.push_str(&format!("{}|{}|-1\n", i, j));
-- 
2.43.0


From 007ace0ee87a7ebfa515df081885bcefa0577cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 16/16] fix: tiers after an empty tier are linked again as if
 they were the first

new_tiered_full_mesh took the first node of a tier from the nodes of the tier
before it, so that after an empty tier it started again at node 0: sizes
[2, 0, 2] linked nodes 0 and 1 twice and left nodes 2 and 3 without links.
---
 src/simulation/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 1620b63..5470402 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -26,14 +26,15 @@ impl Graph {
     pub fn new_tiered_full_mesh(tier_sizes: &[usize]) -> Self {
         let mut outlinks: Vec<Vec<NodeId>> = vec![vec![]; tier_sizes.iter().sum()];
         let mut higher_tier_node_ids = vec![];
+        let mut i0: usize = 0;
         for tier_size in tier_sizes.iter() {
-            let i0: usize = higher_tier_node_ids.last().map_or(0, |x| x + 1);
             let n = i0.checked_add(*tier_size).unwrap();
             for i in i0..n {
                 outlinks[i].extend_from_slice(&higher_tier_node_ids);
                 outlinks[i].extend((i0..i).chain(i + 1..n));
             }
             higher_tier_node_ids = (i0..n).collect();
+            i0 = n;
         }
         Self::new(outlinks)
     }
-- 
2.43.0

