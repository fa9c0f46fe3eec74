From b4312003ba954e9eaf6bf3171c1859c21a712763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 01/55] fix: avoid landmark selection must not follow self
 loops of the tree root forever

---
 engine/src/algo/alt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/alt.rs b/engine/src/algo/alt.rs
index b27f7f5..b7e2aa7 100644
--- a/engine/src/algo/alt.rs
+++ b/engine/src/algo/alt.rs
@@ -120,7 +120,7 @@ impl ALTPotData {
             while let Some(next) = graph
                 .link_iter(v)
                 .map(|l| l.head())
-                .filter(|&l| dists.predecessor(l) == v)
+                .filter(|&l| l != v && dists.predecessor(l) == v)
                 .max_by_key(|&l| weights[l as usize])
             {
                 v = next;
-- 
2.43.0


From 7fac43b059472bdbea8aa4bafc44e3ea65c21e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 02/55] fix: clamp average potential consistently in both
 directions so the bidirectional stopping criterion stays valid

---
 engine/src/algo/a_star.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index ed1313a..70a43fc 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -295,9 +295,14 @@ impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP>
             .potential(node)
             .and_then(|dist_t| self.backward_potential.potential(node).map(|dist_s| (dist_t as i32 - dist_s as i32) / 2))
     }
+
+    // Limit the potential to the range where neither direction becomes negative.
+    // Has to be applied to both directions alike, so that their sum stays the same for all nodes.
+    fn clamp(&self, potential: i32) -> i32 {
+        potential.clamp(-self.fw_add, self.bw_add)
+    }
 }
 
-use std::cmp::max;
 impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePotential<PF, PB, IP> {
     fn init(&mut self, source: NodeId, target: NodeId) {
         self.forward_potential.init(target);
@@ -314,10 +319,10 @@ impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePot
         }
     }
     fn forward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(p + self.fw_add, 0) as Weight)
+        self.potential(node).map(|p| (self.clamp(p) + self.fw_add) as Weight)
     }
     fn backward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(self.bw_add - p, 0) as Weight)
+        self.potential(node).map(|p| (self.bw_add - self.clamp(p)) as Weight)
     }
     fn forward_potential_raw(&mut self, node: NodeId) -> Option<Weight> {
         self.forward_potential.potential(node)
-- 
2.43.0


From f9188eedefef813698bb2eb8323128c82437c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 03/55] fix: bidirectional search must not discard a shorter
 known path when settling the opposite terminal

---
 .../algo/dijkstra/query/bidirectional_dijkstra.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
index 5956aac..adee014 100644
--- a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
@@ -90,8 +90,12 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                         num_queue_pops += 1;
                         inspect(node, *forward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
                         if node == to {
-                            *meeting_node = to;
-                            return Some(*forward_dijkstra.tentative_distance(to));
+                            // a shorter path may already be known, when parts of it were pruned from the forward search
+                            if *forward_dijkstra.tentative_distance(to) < tentative_distance {
+                                tentative_distance = *forward_dijkstra.tentative_distance(to);
+                                *meeting_node = to;
+                            }
+                            return Some(tentative_distance);
                         }
                     }
                 } else {
@@ -116,8 +120,11 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                         num_queue_pops += 1;
                         inspect(node, *backward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
                         if node == from {
-                            *meeting_node = from;
-                            return Some(*backward_dijkstra.tentative_distance(from));
+                            if *backward_dijkstra.tentative_distance(from) < tentative_distance {
+                                tentative_distance = *backward_dijkstra.tentative_distance(from);
+                                *meeting_node = from;
+                            }
+                            return Some(tentative_distance);
                         }
                     }
                 }
-- 
2.43.0


From dec79fbf3ae37bd791ae6d5a3918a5ea3155a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 04/55] fix: edge chunks for parallel graph rebuilds must cover
 all nodes on small or disconnected graphs

---
 .../customization.rs                           | 18 +++++++++++-------
 .../customizable_contraction_hierarchy/mod.rs  |  1 +
 engine/src/algo/td_astar.rs                    | 16 ++--------------
 .../src/algo/traffic_aware/td_traffic_pots.rs  | 16 ++--------------
 4 files changed, 16 insertions(+), 35 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..c1b74f1 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -350,6 +350,16 @@ pub fn customize_perfect_without_rebuild(customized: &mut CustomizedBasic<CCH>)
     (upward_modified, downward_modified)
 }
 
+/// Split all nodes into `k` consecutive (possibly empty) chunks with roughly the same number of edges each.
+/// Returns the `k + 1` chunk boundaries, always starting with `0` and ending with `n`.
+pub(crate) fn first_nodes_of_edge_chunks(tail: &[NodeId], n: usize, k: usize) -> Vec<usize> {
+    let target_edges_per_chunk = (tail.len() + k - 1) / k;
+    std::iter::once(0)
+        .chain((1..k).map(|i| tail.get(i * target_edges_per_chunk).map_or(n, |&node| node as usize)))
+        .chain(std::iter::once(n))
+        .collect()
+}
+
 pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
     customized: CustomizedBasic<'c, C>,
     upward_modified: &[bool],
@@ -457,13 +467,7 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
 
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
-            let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
-                .collect();
+            let first_node_of_chunk = first_nodes_of_edge_chunks(cch.forward_tail(), n, k);
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
diff --git a/engine/src/algo/customizable_contraction_hierarchy/mod.rs b/engine/src/algo/customizable_contraction_hierarchy/mod.rs
index 84a0a7d..296854a 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/mod.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/mod.rs
@@ -13,6 +13,7 @@ mod contraction;
 use contraction::*;
 pub mod customization;
 pub use customization::ftd as ftd_cch;
+pub(crate) use customization::first_nodes_of_edge_chunks;
 pub use customization::{customize, customize_directed, customize_directed_perfect, customize_perfect};
 pub mod separator_decomposition;
 use separator_decomposition::*;
diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index d1d46df..9d6f811 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -317,13 +317,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = first_nodes_of_edge_chunks(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -1094,13 +1088,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = first_nodes_of_edge_chunks(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index 20b00ed..a988e2d 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -218,13 +218,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = first_nodes_of_edge_chunks(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -884,13 +878,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = first_nodes_of_edge_chunks(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
-- 
2.43.0


From 3c4bbfe2507dfc07a239adacb5526e8ba0df1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 05/55] fix: contraction hierarchy path unpacking has to work
 on ranks and recurse into both parts of a shortcut

---
 .../src/algo/contraction_hierarchy/query.rs   | 78 ++++++++-----------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..13447a2 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,48 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
-        }
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
 
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
+        // the searches are performed on ranks, the path along (possibly shortcut) edges goes up to the meeting node and then down again
+        let upward = self.forward_data.node_path(from, self.meeting_node);
+        let mut downward = self.backward_data.node_path(to, self.meeting_node);
+        downward.reverse();
 
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
-                }
-            }
+        let mut path = vec![from];
+        for edge in upward.windows(2).chain(downward.windows(2)) {
+            self.unpack_edge(edge[0], edge[1], &mut path);
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
-
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
+    }
+
+    // Append all nodes behind `tail` on the path in the original graph represented by the edge (`tail`, `head`).
+    fn unpack_edge(&self, tail: NodeId, head: NodeId, path: &mut Vec<NodeId>) {
+        let (forward_middle_nodes, backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+        let mut stack = vec![(tail, head)];
+
+        while let Some((tail, head)) = stack.pop() {
+            // edges are always stored at their lower ranked endpoint
+            let (graph, middle_nodes, low, high) = if tail < head {
+                (&self.forward, forward_middle_nodes, tail, head)
+            } else {
+                (&self.backward, backward_middle_nodes, head, tail)
+            };
+            let EdgeIdT(edge) = graph.edge_indices(low, high).min_by_key(|&EdgeIdT(edge)| graph.weight()[edge as usize]).unwrap();
+            let middle = middle_nodes[edge as usize];
+            if middle < graph.num_nodes() as NodeId {
+                stack.push((middle, head));
+                stack.push((tail, middle));
+            } else {
+                path.push(head);
+            }
+        }
     }
 }
 
-- 
2.43.0


From f35b550ed2a193a28e2cb9b6c2edd07048fd140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 06/55] fix: partial contraction must keep the edges to the
 first uncontracted node

---
 engine/src/algo/contraction_hierarchy/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..06e630b 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -164,12 +164,13 @@ impl ContractionGraph {
         let mut data = (DijkstraData::new(graph.nodes.len()), DijkstraData::new(graph.nodes.len()));
 
         // split of the lowest node, the one that will be contracted
-        while let Some((node, mut subgraph)) = graph.remove_lowest() {
-            if contraction_count == 0 {
-                break;
-            } else {
-                contraction_count -= 1;
-            }
+        // (but only as long as there is something left to contract, splitting off already removes the edges to the node)
+        while contraction_count > 0 {
+            let (node, mut subgraph) = match graph.remove_lowest() {
+                Some(split) => split,
+                None => break,
+            };
+            contraction_count -= 1;
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
-- 
2.43.0


From 0bba33958927b738090ea135ace806232c54243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 07/55] fix: CH preprocessing must tolerate parallel and
 infinite weight edges

---
 engine/src/algo/contraction_hierarchy/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index 06e630b..3753de1 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -79,6 +79,15 @@ impl Node {
         ShortcutResult::NewShortcut
     }
 
+    // Contraction relies on at most one link to each neighbor, only the shortest of parallel links is relevant.
+    // Links with infinite weight can never be used.
+    fn usable_links(mut links: Vec<(Link, NodeId)>) -> Vec<(Link, NodeId)> {
+        links.retain(|&(Link { weight, .. }, _)| weight < INFINITY);
+        links.sort_unstable_by_key(|&(Link { node, weight }, _)| (node, weight));
+        links.dedup_by_key(|&mut (Link { node, .. }, _)| node);
+        links
+    }
+
     // remove links to a specific other node
     fn remove_outgoing(&mut self, to: NodeId) {
         let pos = self.outgoing.iter().position(|&(Link { node, .. }, _)| to == node).unwrap();
@@ -138,7 +147,12 @@ impl ContractionGraph {
                     })
                     .collect()
             });
-            outs.zip(ins).map(|(outgoing, incoming)| Node { outgoing, incoming }).collect()
+            outs.zip(ins)
+                .map(|(outgoing, incoming)| Node {
+                    outgoing: Node::usable_links(outgoing),
+                    incoming: Node::usable_links(incoming),
+                })
+                .collect()
         };
 
         ContractionGraph { nodes }
@@ -174,6 +188,9 @@ impl ContractionGraph {
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
+                    if from_wght + to_wght >= INFINITY {
+                        continue;
+                    }
                     // do witness search to check if we need the shortcut
                     let (shortcut_required, new_data) = subgraph.shortcut_required(from, to, from_wght + to_wght, data);
                     data = new_data;
-- 
2.43.0


From 6c5fd11cd11bf063eb283d2fcb9fc0744357009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 08/55] fix: bucket CH potential debug assertion must check the
 head node whose distances are used

---
 engine/src/algo/ch_potentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..a273bf7 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -551,7 +551,7 @@ impl<GF: LinkIterGraph, GB: LinkIterGraph> BucketCHPotential<GF, GB> {
                 num_pot_computations,
                 num_targets,
             );
-            debug_assert!(pot_final.get(node as usize));
+            debug_assert!(pot_final.get(l.node as usize));
             let (potentials, upper_dists) = potentials.split_at_mut(l.node as usize);
             let head_dists = upper_dists[0].as_ref().unwrap();
             let self_dists = potentials[node as usize].as_mut().unwrap();
-- 
2.43.0


From 3192a9d8b6753e423ea199ef88c3508b3fbe353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 09/55] fix: nearest neighbor search must not bound the cell
 containing the source by its boundary distance

---
 .../query/nearest_neighbor.rs                                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..6b66cf1 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -36,6 +36,7 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
         self.one_to_many.init(source);
+        let source_rank = self.cch.node_order().rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -99,8 +100,10 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
                 for child in &cell.children {
                     let top_cell_node = child.nodes.highest_ranked_node().unwrap();
+                    let child_nodes = top_cell_node + 1 - child.num_nodes as NodeId..top_cell_node + 1;
                     let top_node_out_edges = self.cch.neighbor_edge_indices_usize(top_cell_node);
-                    let mut lower_bound_dist = INFINITY;
+                    // targets in the cell of the source can be reached without crossing the boundary
+                    let mut lower_bound_dist = if child_nodes.contains(&source_rank) { 0 } else { INFINITY };
                     for &boundary in &self.cch.head()[top_node_out_edges] {
                         lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
                     }
-- 
2.43.0


From 8821724957595463396b9e3fe36100e2d25d5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 10/55] fix: bucket based nearest neighbor search must not
 report unreachable targets

---
 .../query/nearest_neighbor.rs                                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 6b66cf1..d74af50 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -214,7 +214,7 @@ impl<'a> BCCHNearestNeighbor<'a> {
 
         while let Some(node) = fw_walk.peek() {
             let fw_dist = fw_walk.tentative_distance(node);
-            if self.closest_targets.len() < k || fw_dist < self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) {
+            if fw_dist < INFINITY && (self.closest_targets.len() < k || fw_dist < self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY)) {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
-- 
2.43.0


From 0c2d26b42558578fb9b5b8785474116d99aa6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:39 +0000
Subject: [PATCH 11/55] fix: bucket CH selection must not create bucket entries
 over edges with infinite weight

---
 engine/src/algo/ch_potentials.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index a273bf7..69427ba 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -689,10 +689,15 @@ where
 
             for (NodeIdT(low_neighbor), weight) in self.incoming[node as usize].drain(..) {
                 for &(terminal, dist) in &self.distances[low_neighbor as usize] {
+                    let dist = dist + weight;
+                    // hierarchies may contain edges with infinite weight, these must not create (duplicate) bucket entries
+                    if dist >= INFINITY {
+                        continue;
+                    }
                     if self.terminal_dists[terminal as usize] == INFINITY {
                         self.used_terminals.push(NodeIdT(terminal));
                     }
-                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist + weight);
+                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist);
                 }
             }
 
-- 
2.43.0


From cf9bd3518b9648798508da55b5cfd03307e19da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:39 +0000
Subject: [PATCH 12/55] fix: hub labels must ignore hierarchy edges with
 infinite weight

---
 engine/src/algo/hl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/hl.rs b/engine/src/algo/hl.rs
index 506e44e..d2a8fc8 100644
--- a/engine/src/algo/hl.rs
+++ b/engine/src/algo/hl.rs
@@ -27,13 +27,13 @@ impl HubLabels {
             self.outgoing[node].push((node as NodeId, 0));
             self.incoming[node].push((node as NodeId, 0));
 
-            for link in LinkIterable::<Link>::link_iter(up, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(up, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (out_remaining, out_done) = self.outgoing.split_at_mut(node + 1);
                 let cur_out = out_remaining.last_mut().unwrap();
                 cur_out.extend(out_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
             }
 
-            for link in LinkIterable::<Link>::link_iter(down, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(down, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (in_remaining, in_done) = self.incoming.split_at_mut(node + 1);
                 let cur_in = in_remaining.last_mut().unwrap();
                 cur_in.extend(in_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
-- 
2.43.0


From d47670ed344f48a7015f47b759023a3fe8be1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:39 +0000
Subject: [PATCH 13/55] fix: sequential perfect customization must accept
 infinite weight edges like the parallel one does

---
 .../algo/customizable_contraction_hierarchy/customization.rs    | 2 --
 1 file changed, 2 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index c1b74f1..dac3c82 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -415,7 +415,6 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
                     .zip(fw_edge_ids)
                 {
                     if !modified {
-                        debug_assert!(link.weight < INFINITY);
                         forward_id_mapping[edge_idx] = forward_head.len() as EdgeId;
                         forward_head.push(link.node);
                         forward_tail.push(node);
@@ -433,7 +432,6 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
                     .zip(bw_edge_ids)
                 {
                     if !modified {
-                        debug_assert!(link.weight < INFINITY);
                         backward_id_mapping[edge_idx] = backward_head.len() as EdgeId;
                         backward_head.push(link.node);
                         backward_tail.push(node);
-- 
2.43.0


From 659c67593d99b2c446ecfc65bd90f99a49e28779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 14/55] fix: unpacking of shortest path trees must not create
 cycles over zero weight arcs

---
 engine/src/algo/ch_potentials.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 69427ba..cf040d0 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -282,6 +282,10 @@ impl<'a, const FLIP_UNPACKING: bool> CCHPotentialWithPathUnpacking<'a, FLIP_UNPA
         }
         let parent_dist = self.potential(parent).unwrap();
         self.unpack_path(NodeIdT(parent));
+        // with zero weight arcs, the path of the parent may lead over this node
+        if self.path_unpacked.get(node as usize) {
+            return;
+        }
 
         debug_assert!(self_dist >= parent_dist, "{:#?}", (node, parent, self_dist, parent_dist));
         let (down, up) = if parent > node {
-- 
2.43.0


From 86f6ecc05fe53652c67d35a129a062a58e6e3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 15/55] fix: topocore bidirectional search must not discard a
 shorter known path when settling the opposite terminal

---
 engine/src/algo/ch_potentials/query.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..f1cf717 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -913,8 +913,12 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                     ) {
                         num_queue_pops += 1;
                         if node == query.to() {
-                            *meeting_node = query.to();
-                            return Some(*forward_dijkstra.tentative_distance(query.to()));
+                            // a shorter path may already be known, when parts of it were pruned from the forward search
+                            if *forward_dijkstra.tentative_distance(query.to()) < tentative_distance {
+                                tentative_distance = *forward_dijkstra.tentative_distance(query.to());
+                                *meeting_node = query.to();
+                            }
+                            return Some(tentative_distance);
                         }
                     }
                 } else {
@@ -944,8 +948,11 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                     ) {
                         num_queue_pops += 1;
                         if node == query.from() {
-                            *meeting_node = query.from();
-                            return Some(*backward_dijkstra.tentative_distance(query.from()));
+                            if *backward_dijkstra.tentative_distance(query.from()) < tentative_distance {
+                                tentative_distance = *backward_dijkstra.tentative_distance(query.from());
+                                *meeting_node = query.from();
+                            }
+                            return Some(tentative_distance);
                         }
                     }
                 }
-- 
2.43.0


From 33624a012d96fef037c1529711de53a7cd466ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 16/55] fix: topocore bidirectional search must not stop when
 only one direction is exhausted

---
 engine/src/algo/ch_potentials/query.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index f1cf717..392ac4b 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -878,11 +878,13 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
 
         let result = (|| {
             while !(dir_chooser.may_stop()
-                && potential.get_mut().stop(
-                    forward_dijkstra.queue().peek().map(|q| q.key),
-                    backward_dijkstra.queue().peek().map(|q| q.key),
-                    min(tentative_distance, cap),
-                ))
+                && match (forward_dijkstra.queue().peek().map(|q| q.key), backward_dijkstra.queue().peek().map(|q| q.key)) {
+                    (None, None) => true,
+                    // The searches do not enter the components outside of the core from the core.
+                    // So when only one of them is exhausted, the other one may still find a (better) path.
+                    (None, Some(_)) | (Some(_), None) => false,
+                    (fw_min_key, bw_min_key) => potential.get_mut().stop(fw_min_key, bw_min_key, min(tentative_distance, cap)),
+                })
             {
                 let stop_dist = min(tentative_distance, cap);
 
-- 
2.43.0


From 93fa7b727a10a8b92de8668166884f39e6142e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:37 +0000
Subject: [PATCH 17/55] fix: topocore query must search components completely
 when the core cannot be part of the path

---
 engine/src/algo/ch_potentials/query.rs    | 22 ++++++++++++++++++++--
 engine/src/algo/ch_potentials/td_query.rs | 23 +++++++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 392ac4b..5f45286 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -95,7 +95,10 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core)?;
+        // Paths between nodes behind the same bridge node or in components which are not connected to the core never use the core.
+        let comp_only =
+            into_core == out_of_core || !virtual_topocore.node_type(into_core).in_core() || !virtual_topocore.node_type(out_of_core).in_core();
+        let into_core_pot = if comp_only { 0 } else { potential.potential(into_core)? };
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -111,13 +114,28 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| {
+                    if comp_only {
+                        e.key >= *comp_search.tentative_distance(query.to())
+                    } else {
+                        e.key >= *comp_search.tentative_distance(into_core) + into_core_pot
+                    }
+                })
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
+        if comp_only {
+            report!("num_queue_pops", num_queue_pops);
+            report!("num_queue_pushs", comp_search.num_queue_pushs());
+            report!("num_relaxed_arcs", comp_search.num_relaxed_arcs());
+
+            let dist = *comp_search.tentative_distance(query.to());
+            return if dist < INFINITY { Some(dist - departure) } else { None };
+        }
+
         if *comp_search.tentative_distance(into_core) >= INFINITY {
             return None;
         }
diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..68729e8 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -108,7 +108,10 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
+        // Paths between nodes behind the same bridge node or in components which are not connected to the core never use the core.
+        let comp_only =
+            into_core == out_of_core || !virtual_topocore.node_type(into_core).in_core() || !virtual_topocore.node_type(out_of_core).in_core();
+        let into_core_pot = if comp_only { 0 } else { potential.potential(into_core, None).unwrap_or(INFINITY) };
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -124,13 +127,29 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| {
+                    if comp_only {
+                        e.key >= *comp_search.tentative_distance(query.to())
+                    } else {
+                        e.key >= *comp_search.tentative_distance(into_core) + into_core_pot
+                    }
+                })
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
+        if comp_only {
+            report!("num_queue_pops", num_queue_pops);
+            report!("num_queue_pushs", comp_search.num_queue_pushs());
+            report!("num_relaxed_arcs", comp_search.num_relaxed_arcs());
+            potential.report_stats();
+
+            let dist = *comp_search.tentative_distance(query.to());
+            return if dist < INFINITY { Some(dist - departure) } else { None };
+        }
+
         let mut pushs = comp_search.num_queue_pushs();
         let mut relaxed = comp_search.num_relaxed_arcs();
 
-- 
2.43.0


From d93dfcc6ebfe75c317f8bb690d856bb47db1a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:27 +0000
Subject: [PATCH 18/55] fix: topocore degree boundaries must not extend beyond
 the biggest biconnected component

---
 engine/src/algo/topocore.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..5985bec 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -597,8 +597,9 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
             bcc.push(components[node as usize] - 1);
         }
     }
-    let deg3 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(n as usize);
-    let deg2 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(n as usize);
+    let core = &new_order[..biggest_bcc_size];
+    let deg3 = core.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(biggest_bcc_size);
+    let deg2 = core.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(biggest_bcc_size);
 
     report!("biggest_bcc_size", biggest_bcc_size);
     report!("deg2", deg2);
-- 
2.43.0


From 027a7ee93c08d5c4adc49aeba02e52e2d512e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:27 +0000
Subject: [PATCH 19/55] fix: topocore node degrees must saturate instead of
 wrapping around

---
 engine/src/algo/topocore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 5985bec..1723cc4 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -523,7 +523,8 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
     let reversed = UnweightedOwnedGraph::reversed(graph);
 
     let symmetric_degrees = (0..graph.num_nodes())
-        .map(|node| symmetric_degree(graph.link_iter(node as NodeId), LinkIterable::<NodeIdT>::link_iter(&reversed, node as NodeId)) as u8)
+        .map(|node| symmetric_degree(graph.link_iter(node as NodeId), LinkIterable::<NodeIdT>::link_iter(&reversed, node as NodeId)))
+        .map(|degree| min(degree, u8::MAX as usize) as u8)
         .collect::<Vec<u8>>();
 
     let biggest = biconnected(&UndirectedGraph { ins: &reversed, outs: graph })
-- 
2.43.0


From fbb4804ebf905662d19fd3dd8ed3104bcf565ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:07 +0000
Subject: [PATCH 20/55] fix: topocore search must report dead ends of skipped
 chains as possible meeting nodes

---
 engine/src/algo/dijkstra/gen_topo_dijkstra.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/algo/dijkstra/gen_topo_dijkstra.rs b/engine/src/algo/dijkstra/gen_topo_dijkstra.rs
index 3c92969..4192671 100644
--- a/engine/src/algo/dijkstra/gen_topo_dijkstra.rs
+++ b/engine/src/algo/dijkstra/gen_topo_dijkstra.rs
@@ -220,6 +220,9 @@ where
                                     }
                                 }
                             }
+                        } else {
+                            // dead end: there is nothing left to explore, but searches may meet here
+                            improve_callback(next_node, next_distance);
                         }
                     }
 
@@ -496,6 +499,9 @@ where
                                     }
                                 }
                             }
+                        } else {
+                            // dead end: there is nothing left to explore, but searches may meet here
+                            improve_callback(next_node, &next_distance);
                         }
                     }
 
-- 
2.43.0


From a13f87fe98e7f7212219f5fdb0a61e8204603017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 21/55] fix: topocore bidirectional search must not stop or
 prune by the opposite search inside of components which that search cannot
 enter

---
 engine/src/algo/ch_potentials/query.rs | 17 +++++++++++++----
 engine/src/algo/topocore.rs            |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 5f45286..c74b4f6 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -893,9 +893,16 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
         let mut tentative_distance = INFINITY;
         let mut potential = RefCell::new(&mut self.potential);
         let mut dir_chooser: D = Default::default();
+        // Components outside of the core can only be left, but not entered.
+        // So the opposite search cannot reach nodes in there and their paths are only known when the search from the terminal has arrived in the core.
+        let topocore = self.forward_graph.topocore();
+        let mut fw_in_core = topocore.node_type(query.from()).in_core();
+        let mut bw_in_core = topocore.node_type(query.to()).in_core();
 
         let result = (|| {
             while !(dir_chooser.may_stop()
+                && (fw_in_core || forward_dijkstra.queue().is_empty())
+                && (bw_in_core || backward_dijkstra.queue().is_empty())
                 && match (forward_dijkstra.queue().peek().map(|q| q.key), backward_dijkstra.queue().peek().map(|q| q.key)) {
                     (None, None) => true,
                     // The searches do not enter the components outside of the core from the core.
@@ -915,7 +922,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                                     return false;
                                 }
                             }
-                            if pot.prune_forward(
+                            if topocore.node_type(head).in_core() && pot.prune_forward(
                                 NodeIdT(head),
                                 dist,
                                 backward_dijkstra.queue().peek().map(|q| q.key).unwrap_or(INFINITY),
@@ -932,7 +939,8 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                         |node| potential.borrow_mut().forward_potential(node),
                     ) {
                         num_queue_pops += 1;
-                        if node == query.to() {
+                        fw_in_core |= topocore.node_type(node).in_core();
+                        if node == query.to() && topocore.node_type(node).in_core() {
                             // a shorter path may already be known, when parts of it were pruned from the forward search
                             if *forward_dijkstra.tentative_distance(query.to()) < tentative_distance {
                                 tentative_distance = *forward_dijkstra.tentative_distance(query.to());
@@ -950,7 +958,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                                     return false;
                                 }
                             }
-                            if pot.prune_backward(
+                            if topocore.node_type(head).in_core() && pot.prune_backward(
                                 NodeIdT(head),
                                 dist,
                                 forward_dijkstra.queue().peek().map(|q| q.key).unwrap_or(INFINITY),
@@ -967,7 +975,8 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                         |node| potential.borrow_mut().backward_potential(node),
                     ) {
                         num_queue_pops += 1;
-                        if node == query.from() {
+                        bw_in_core |= topocore.node_type(node).in_core();
+                        if node == query.from() && topocore.node_type(node).in_core() {
                             if *backward_dijkstra.tentative_distance(query.from()) < tentative_distance {
                                 tentative_distance = *backward_dijkstra.tentative_distance(query.from());
                                 *meeting_node = query.from();
diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 1723cc4..0e30afa 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -703,6 +703,10 @@ impl<Graph> VirtualTopocoreGraph<Graph> {
             topocore,
         )
     }
+
+    pub(crate) fn topocore(&self) -> &VirtualTopocore {
+        &self.virtual_topocore
+    }
 }
 
 impl<G: Graph> Graph for VirtualTopocoreGraph<G> {
-- 
2.43.0


From 17a81b004a3631e8229a0255303aaa3fb879d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 22/55] fix: multithreaded bidirectional topocore search must
 take the shortest of all known paths

---
 engine/src/algo/ch_potentials/query.rs | 72 +++++++-------------------
 1 file changed, 19 insertions(+), 53 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index c74b4f6..b56cc88 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1166,20 +1166,12 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         fw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
                         if node == query.to() {
                             fw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
-                            return (Some(query.to()), num_queue_pops);
+                            return (meeting_node, num_queue_pops);
                         }
                     }
                 }
 
-                if meeting_node.is_some() {
-                    (meeting_node, num_queue_pops)
-                } else {
-                    if forward_dijkstra.tentative_distance(query.to()) < INFINITY {
-                        (Some(query.to()), num_queue_pops)
-                    } else {
-                        (None, num_queue_pops)
-                    }
-                }
+                (meeting_node, num_queue_pops)
             },
             || {
                 let mut bw_potential = RefCell::new(bw_potential);
@@ -1218,20 +1210,12 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         bw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
                         if node == query.from() {
                             bw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
-                            return (Some(query.from()), num_queue_pops);
+                            return (meeting_node, num_queue_pops);
                         }
                     }
                 }
 
-                if meeting_node.is_some() {
-                    (meeting_node, num_queue_pops)
-                } else {
-                    if backward_dijkstra.tentative_distance(query.from()) < INFINITY {
-                        (Some(query.from()), num_queue_pops)
-                    } else {
-                        (None, num_queue_pops)
-                    }
-                }
+                (meeting_node, num_queue_pops)
             },
         );
 
@@ -1239,39 +1223,21 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
         report!("num_queue_pushs", forward_dijkstra.num_queue_pushs() + backward_dijkstra.num_queue_pushs());
         report!("num_relaxed_arcs", forward_dijkstra.num_relaxed_arcs() + backward_dijkstra.num_queue_pushs());
 
-        let fw_meeting = fw_meeting.map(|fw_meeting| {
-            (
-                fw_meeting,
-                self.forward_dijkstra_data.distances.get(fw_meeting as usize) + self.backward_dijkstra_data.distances.get(fw_meeting as usize),
-            )
-        });
-        let bw_meeting = bw_meeting.map(|bw_meeting| {
-            (
-                bw_meeting,
-                self.forward_dijkstra_data.distances.get(bw_meeting as usize) + self.backward_dijkstra_data.distances.get(bw_meeting as usize),
-            )
-        });
-
-        match (fw_meeting, bw_meeting) {
-            (Some((fw_meet, fw_dist)), Some((bw_meet, bw_dist))) => {
-                if fw_dist < bw_dist {
-                    self.meeting_node = fw_meet;
-                    Some(fw_dist)
-                } else {
-                    self.meeting_node = bw_meet;
-                    Some(bw_dist)
-                }
-            }
-            (Some((fw_meet, fw_dist)), None) => {
-                self.meeting_node = fw_meet;
-                Some(fw_dist)
-            }
-            (None, Some((bw_meet, bw_dist))) => {
-                self.meeting_node = bw_meet;
-                Some(bw_dist)
-            }
-            _ => None,
-        }
+        // the paths over the terminals may be shorter than the ones over the nodes where the searches noticed each other
+        let best = [Some(query.to()), Some(query.from()), bw_meeting, fw_meeting]
+            .iter()
+            .flatten()
+            .map(|&node| {
+                let dist = self.forward_dijkstra_data.distances.get(node as usize) + self.backward_dijkstra_data.distances.get(node as usize);
+                (dist, node)
+            })
+            .filter(|&(dist, _)| dist < INFINITY)
+            .min_by_key(|&(dist, _)| dist);
+
+        best.map(|(dist, meeting_node)| {
+            self.meeting_node = meeting_node;
+            dist
+        })
     }
 
     fn path(&self, query: impl GenQuery<Timestamp>) -> Vec<NodeId> {
-- 
2.43.0


From 09005ea492683ca0404bc2c205114b6a48e6beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 23/55] fix: topocore bidirectional search must register
 meeting nodes before pruning them

---
 engine/src/algo/ch_potentials/query.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index b56cc88..f412375 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -922,6 +922,10 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                                     return false;
                                 }
                             }
+                            if dist + backward_dijkstra.tentative_distance(head) < tentative_distance {
+                                tentative_distance = dist + backward_dijkstra.tentative_distance(head);
+                                *meeting_node = head;
+                            }
                             if topocore.node_type(head).in_core() && pot.prune_forward(
                                 NodeIdT(head),
                                 dist,
@@ -930,10 +934,6 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                             ) {
                                 return false;
                             }
-                            if dist + backward_dijkstra.tentative_distance(head) < tentative_distance {
-                                tentative_distance = dist + backward_dijkstra.tentative_distance(head);
-                                *meeting_node = head;
-                            }
                             true
                         },
                         |node| potential.borrow_mut().forward_potential(node),
@@ -958,6 +958,10 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                                     return false;
                                 }
                             }
+                            if dist + forward_dijkstra.tentative_distance(head) < tentative_distance {
+                                tentative_distance = dist + forward_dijkstra.tentative_distance(head);
+                                *meeting_node = head;
+                            }
                             if topocore.node_type(head).in_core() && pot.prune_backward(
                                 NodeIdT(head),
                                 dist,
@@ -966,10 +970,6 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                             ) {
                                 return false;
                             }
-                            if dist + forward_dijkstra.tentative_distance(head) < tentative_distance {
-                                tentative_distance = dist + forward_dijkstra.tentative_distance(head);
-                                *meeting_node = head;
-                            }
                             true
                         },
                         |node| potential.borrow_mut().backward_potential(node),
-- 
2.43.0


From 89f027ee28d30417f71496ac00e191fce4e62681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 24/55] fix: multithreaded bidirectional topocore search must
 not miss meeting nodes due to store buffering

---
 engine/src/algo/ch_potentials/query.rs | 35 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index f412375..d0994a4 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1091,6 +1091,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
 
     pub fn distance(&mut self, query: impl GenQuery<Timestamp> + Copy + Sync, cap: Weight, pot_cap: Option<Weight>) -> Option<Weight> {
         use std::cmp::min;
+        use std::sync::atomic::{fence, Ordering};
 
         report!("algo", "Virtual Topocore Parallel Bidirectional Core Query");
         P::report();
@@ -1138,7 +1139,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
 
                 while !fw_potential.get_mut().stop_forward(
                     forward_dijkstra.queue().peek().map(|q| q.key),
-                    Some(bw_progress.load(std::sync::atomic::Ordering::Relaxed)),
+                    Some(bw_progress.load(Ordering::Acquire)),
                     stop_dist,
                 ) {
                     if let Some(node) = forward_dijkstra.next_with_improve_callback_and_potential(
@@ -1149,23 +1150,26 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                                     return false;
                                 }
                             }
-                            if pot.prune_forward(NodeIdT(head), dist, bw_progress.load(std::sync::atomic::Ordering::Relaxed), stop_dist) {
-                                return false;
-                            }
+                            // At least one of the searches has to see the distance the other one just has written,
+                            // otherwise both might miss that they met.
+                            fence(Ordering::SeqCst);
                             fw_tentative_distance = min(fw_tentative_distance, dist + fw_reverse_dist.get(head as usize));
                             stop_dist = min(fw_tentative_distance, cap);
-                            if tentative_distance.fetch_min(fw_tentative_distance, std::sync::atomic::Ordering::Relaxed) > fw_tentative_distance {
+                            if tentative_distance.fetch_min(fw_tentative_distance, Ordering::Relaxed) > fw_tentative_distance {
                                 meeting_node = Some(head);
                             }
+                            if pot.prune_forward(NodeIdT(head), dist, bw_progress.load(Ordering::Acquire), stop_dist) {
+                                return false;
+                            }
                             true
                         },
                         |node| fw_potential.borrow_mut().forward_potential(node),
                     ) {
                         num_queue_pops += 1;
                         let prog = forward_dijkstra.queue().peek().map_or(INFINITY, |p| p.key);
-                        fw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
+                        fw_progress.store(prog, Ordering::Release);
                         if node == query.to() {
-                            fw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
+                            fw_progress.store(INFINITY, Ordering::Release);
                             return (meeting_node, num_queue_pops);
                         }
                     }
@@ -1181,7 +1185,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                 let mut stop_dist = cap;
 
                 while !bw_potential.get_mut().stop_backward(
-                    Some(fw_progress.load(std::sync::atomic::Ordering::Relaxed)),
+                    Some(fw_progress.load(Ordering::Acquire)),
                     backward_dijkstra.queue().peek().map(|q| q.key),
                     stop_dist,
                 ) {
@@ -1193,23 +1197,26 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                                     return false;
                                 }
                             }
-                            if pot.prune_backward(NodeIdT(head), dist, fw_progress.load(std::sync::atomic::Ordering::Relaxed), stop_dist) {
-                                return false;
-                            }
+                            // At least one of the searches has to see the distance the other one just has written,
+                            // otherwise both might miss that they met.
+                            fence(Ordering::SeqCst);
                             bw_tentative_distance = min(bw_tentative_distance, dist + bw_reverse_dist.get(head as usize));
                             stop_dist = min(bw_tentative_distance, cap);
-                            if tentative_distance.fetch_min(bw_tentative_distance, std::sync::atomic::Ordering::Relaxed) > bw_tentative_distance {
+                            if tentative_distance.fetch_min(bw_tentative_distance, Ordering::Relaxed) > bw_tentative_distance {
                                 meeting_node = Some(head);
                             }
+                            if pot.prune_backward(NodeIdT(head), dist, fw_progress.load(Ordering::Acquire), stop_dist) {
+                                return false;
+                            }
                             true
                         },
                         |node| bw_potential.borrow_mut().backward_potential(node),
                     ) {
                         num_queue_pops += 1;
                         let prog = backward_dijkstra.queue().peek().map_or(INFINITY, |p| p.key);
-                        bw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
+                        bw_progress.store(prog, Ordering::Release);
                         if node == query.from() {
-                            bw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
+                            bw_progress.store(INFINITY, Ordering::Release);
                             return (meeting_node, num_queue_pops);
                         }
                     }
-- 
2.43.0


From cfca2b0a44f8563671b98a22eba5006f2f2bb468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:48 +0000
Subject: [PATCH 25/55] fix: penalty alternatives must be returned with the
 node ids of the input graph

---
 engine/src/algo/ch_potentials/penalty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index b7d49ca..9c1c801 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -418,7 +418,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
 
                 if nonshared_length > path_orig_len / 5 {
                     let _alt_ctxt = alternatives_ctxt.push_collection_item();
-                    alternatives.push(path.clone());
+                    alternatives.push(path.iter().map(|&node| self.virtual_topocore.order.node(node)).collect());
                     alternative_graph_dijkstra.graph_mut().add_edges(&path_edges);
                     report!("sharing_percent", (path_orig_len - nonshared_length) * 100 / base_dist);
                     report!("iteration", i);
-- 
2.43.0


From 6b8113be8600e9613f77adc08e0c3724cc29552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 26/55] fix: penalty alternatives must not be added before
 checking that they are short enough

---
 engine/src/algo/ch_potentials/penalty.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index 9c1c801..bb93ea6 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -410,6 +410,12 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                     .map(|&EdgeIdT(e)| alternative_graph_dijkstra.graph().graph.graph.weight()[e as usize])
                     .sum();
 
+                if path_orig_len > max_orig_dist || penalty_dist > max_penalized_dist {
+                    // dbg!(path_orig_len > max_orig_dist);
+                    // dbg!(penalty_dist > max_penalized_dist);
+                    break;
+                }
+
                 let nonshared_length: Weight = path_edges
                     .iter()
                     .filter(|&&EdgeIdT(edge)| !alternative_graph_dijkstra.graph().contained_edges.get(edge as usize))
@@ -428,12 +434,6 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         break;
                     }
                 }
-
-                if path_orig_len > max_orig_dist || penalty_dist > max_penalized_dist {
-                    // dbg!(path_orig_len > max_orig_dist);
-                    // dbg!(penalty_dist > max_penalized_dist);
-                    break;
-                }
             }
 
             drop(alternatives_ctxt);
-- 
2.43.0


From a7a5f5e9533606e337302a320db0836672b8a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:27 +0000
Subject: [PATCH 27/55] fix: penalty method must not divide by zero on zero
 length paths

---
 engine/src/algo/ch_potentials/penalty.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index bb93ea6..a06842e 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -129,7 +129,8 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         Some(*state)
                     }))
                     .collect();
-                let total_penalized_dist = dists.last().unwrap();
+                // the path may consist of zero weight edges only
+                let total_penalized_dist = std::cmp::max(*dists.last().unwrap(), 1);
                 for (&[tail, head], &[tail_dist, head_dist]) in path.array_windows::<2>().zip(dists.array_windows::<2>()) {
                     if self.times_penalized[head as usize] < max_num_penalizations {
                         for (NodeIdT(rev_head), Reversed(EdgeIdT(edge))) in self.reversed.link_iter(head) {
@@ -137,7 +138,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                                 let weight = shortest_path_penalized.graph().graph.weight()[edge as usize];
                                 shortest_path_penalized.set_edge_weight(
                                     edge,
-                                    weight + (rejoin_penalty as u64 * head_dist as u64 / *total_penalized_dist as u64) as Weight,
+                                    weight + (rejoin_penalty as u64 * head_dist as u64 / total_penalized_dist as u64) as Weight,
                                 );
                             }
                         }
@@ -151,7 +152,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                                 let weight = shortest_path_penalized.graph().graph.weight()[edge as usize];
                                 shortest_path_penalized.set_edge_weight(
                                     edge,
-                                    weight + (rejoin_penalty as u64 * tail_dist as u64 / *total_penalized_dist as u64) as Weight,
+                                    weight + (rejoin_penalty as u64 * tail_dist as u64 / total_penalized_dist as u64) as Weight,
                                 );
                             }
                         }
@@ -348,7 +349,8 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         Some(*state)
                     }))
                     .collect();
-                let total_penalized_dist = dists.last().unwrap();
+                // the path may consist of zero weight edges only
+                let total_penalized_dist = std::cmp::max(*dists.last().unwrap(), 1);
                 for (&[tail, head], &[tail_dist, head_dist]) in path.array_windows::<2>().zip(dists.array_windows::<2>()) {
                     if self.times_penalized[head as usize] < max_num_penalizations {
                         for (NodeIdT(rev_head), Reversed(EdgeIdT(edge))) in self.reversed.link_iter(head) {
@@ -356,7 +358,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                                 let weight = shortest_path_penalized.graph().graph.weight()[edge as usize];
                                 shortest_path_penalized.set_edge_weight(
                                     edge,
-                                    weight + (rejoin_penalty as u64 * head_dist as u64 / *total_penalized_dist as u64) as Weight,
+                                    weight + (rejoin_penalty as u64 * head_dist as u64 / total_penalized_dist as u64) as Weight,
                                 );
                             }
                         }
@@ -370,7 +372,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                                 let weight = shortest_path_penalized.graph().graph.weight()[edge as usize];
                                 shortest_path_penalized.set_edge_weight(
                                     edge,
-                                    weight + (rejoin_penalty as u64 * tail_dist as u64 / *total_penalized_dist as u64) as Weight,
+                                    weight + (rejoin_penalty as u64 * tail_dist as u64 / total_penalized_dist as u64) as Weight,
                                 );
                             }
                         }
@@ -672,7 +674,8 @@ impl<'a> PenaltyIterative<'a> {
                         Some(*state)
                     }))
                     .collect();
-                let total_penalized_dist = dists.last().unwrap();
+                // the path may consist of zero weight edges only
+                let total_penalized_dist = std::cmp::max(*dists.last().unwrap(), 1);
                 for (&[tail, head], &[tail_dist, head_dist]) in path.array_windows::<2>().zip(dists.array_windows::<2>()) {
                     if self.times_penalized[head as usize] < max_num_penalizations {
                         for (NodeIdT(rev_head), Reversed(EdgeIdT(edge))) in self.reversed.link_iter(head) {
@@ -680,7 +683,7 @@ impl<'a> PenaltyIterative<'a> {
                                 let weight = shortest_path_penalized.graph().graph.weight()[edge as usize];
                                 shortest_path_penalized.set_edge_weight(
                                     edge,
-                                    weight + (rejoin_penalty as u64 * head_dist as u64 / *total_penalized_dist as u64) as Weight,
+                                    weight + (rejoin_penalty as u64 * head_dist as u64 / total_penalized_dist as u64) as Weight,
                                 );
                             }
                         }
@@ -694,7 +697,7 @@ impl<'a> PenaltyIterative<'a> {
                                 let weight = shortest_path_penalized.graph().graph.weight()[edge as usize];
                                 shortest_path_penalized.set_edge_weight(
                                     edge,
-                                    weight + (rejoin_penalty as u64 * tail_dist as u64 / *total_penalized_dist as u64) as Weight,
+                                    weight + (rejoin_penalty as u64 * tail_dist as u64 / total_penalized_dist as u64) as Weight,
                                 );
                             }
                         }
-- 
2.43.0


From f9e5fd001db84b0273995d88a4d7c80ccd588891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:30 +0000
Subject: [PATCH 28/55] fix: reporting contexts may be nested inside of
 captured reports

---
 engine/src/report.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/report.rs b/engine/src/report.rs
index 682c795..5b1bffa 100644
--- a/engine/src/report.rs
+++ b/engine/src/report.rs
@@ -80,6 +80,7 @@ impl Reporter {
                 swap(&mut tmp, object);
                 self.context_stack.push(ContextStackItem::Capture(tmp));
                 self.context_stack.push(ContextStackItem::Key(key));
+                self.current = CurrentReportingContext::Object(BTreeMap::new());
             }
             CurrentReportingContext::Collection(_) => {
                 panic!("Cannot create object at key in collection");
@@ -203,8 +204,9 @@ impl Reporter {
         match parent {
             ContextStackItem::Key(key) => {
                 let parent = self.context_stack.pop().expect("tried to pop from empty context");
+                let parent_is_capture = matches!(parent, ContextStackItem::Capture(_));
 
-                if let ContextStackItem::Object(mut object) = parent {
+                if let ContextStackItem::Object(mut object) | ContextStackItem::Capture(mut object) = parent {
                     let mut prev_current = CurrentReportingContext::Object(Default::default());
                     swap(&mut self.current, &mut prev_current);
 
@@ -218,7 +220,11 @@ impl Reporter {
                         assert!(prev.is_none());
                     }
 
-                    self.current = CurrentReportingContext::Object(object);
+                    self.current = if parent_is_capture {
+                        CurrentReportingContext::Capture(object)
+                    } else {
+                        CurrentReportingContext::Object(object)
+                    };
                 } else {
                     panic!("Inconsistent context stack");
                 }
-- 
2.43.0


From b205c751c84c8a02b5d4bd5aa795ee1c49aec29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:23 +0000
Subject: [PATCH 29/55] fix: traffic aware routing must not use closed roads

---
 engine/src/algo/traffic_aware.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/traffic_aware.rs b/engine/src/algo/traffic_aware.rs
index 35d743e..52d7649 100644
--- a/engine/src/algo/traffic_aware.rs
+++ b/engine/src/algo/traffic_aware.rs
@@ -257,7 +257,8 @@ where
         }
     }
     fn merge(&mut self, label: &mut MultiCritNodeData<Self::Label>, linked: Self::LinkResult) -> Option<Weight> {
-        let linked = linked?;
+        // closed roads must not be used
+        let linked = linked.filter(|linked| linked.0 < INFINITY)?;
         let mut dominated = false;
 
         label.retain(|NodeQueueLabelOrder(old_l)| {
-- 
2.43.0


From 5c2faf4196343415c932541c67908c039e0c9e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 30/55] fix: bounds of travel time functions in ranges which do
 not wrap or span several days

---
 .../piecewise_linear_function.rs              | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..7b67c34 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -59,12 +59,25 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        let (first_range, second_range) = match Self::split_into_period(range) {
+            Some(ranges) => ranges,
+            None => return self.lower_bound(),
+        };
         std::cmp::min(self.lower_bound_in_included(first_range), self.lower_bound_in_included(second_range))
     }
 
+    /// Map a range to the (up to two) corresponding ranges within the period.
+    /// `None` if the range covers the complete period.
+    fn split_into_period(range: Range<Timestamp>) -> Option<(Range<Timestamp>, Range<Timestamp>)> {
+        let duration = range.end.saturating_sub(range.start);
+        if duration >= period() {
+            return None;
+        }
+        let start = range.start % period();
+        let (first_range, second_range) = (start..start + duration).split(period());
+        Some((first_range, 0..second_range.end - period()))
+    }
+
     pub fn lower_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
             return INFINITY;
@@ -93,31 +106,32 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        let (first_range, second_range) = match Self::split_into_period(range) {
+            Some(ranges) => ranges,
+            None => return self.upper_bound(),
+        };
         std::cmp::max(self.upper_bound_in_included(first_range), self.upper_bound_in_included(second_range))
     }
 
     pub fn upper_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
-            return INFINITY;
+            return 0;
         }
-        let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (first_idx, first_upper) = match self.departure_time.locate(range.start, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(_lower_index, upper_index) => (upper_index, self.evaluate(range.start)),
         };
 
-        let (last_idx, last_lower) = match self.departure_time.locate(range.end, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (last_idx, last_upper) = match self.departure_time.locate(range.end, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),
         };
 
         self.travel_time[first_idx..=last_idx]
             .iter()
             .copied()
-            .chain(std::iter::once(first_lower))
-            .chain(std::iter::once(last_lower))
+            .chain(std::iter::once(first_upper))
+            .chain(std::iter::once(last_upper))
             .max()
             .unwrap()
     }
-- 
2.43.0


From 8e319fc7b938c1ae10c000affe6ece11ec5f8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:59 +0000
Subject: [PATCH 31/55] fix: average of constant travel time functions and over
 ranges wrapping midnight

---
 .../graph/time_dependent/piecewise_linear_function.rs    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 7b67c34..b487290 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,14 +30,19 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
         let (first_range, second_range) = monotone_range.split(period());
+        let second_range = second_range.start - period()..second_range.end - period();
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-            sum += u64::from(seg.line.line().from.val) * u64::from(delta);
-            sum += u64::from(seg.line.line().to.val) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.start)) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.end)) * u64::from(delta);
         }
         (sum / 2 / u64::from(total_time)) as Weight
     }
-- 
2.43.0


From 2ca6d9c602802201cb94ab2c7a6346cf5a232988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:53 +0000
Subject: [PATCH 32/55] fix: time-dependent Dijkstra queries report the travel
 time and not the arrival time

---
 engine/src/algo/dijkstra/query/dijkstra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/dijkstra/query/dijkstra.rs b/engine/src/algo/dijkstra/query/dijkstra.rs
index 7d064a4..5617ce1 100644
--- a/engine/src/algo/dijkstra/query/dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/dijkstra.rs
@@ -57,7 +57,7 @@ where
         while let Some(node) = dijkstra.next_step_with_potential(|node| potential.potential(node)) {
             num_queue_pops += 1;
             if node == to {
-                result = Some(*dijkstra.tentative_distance(node));
+                result = Some(*dijkstra.tentative_distance(node) - query.initial_state());
                 break;
             }
         }
-- 
2.43.0


From a2b7b986baf1981dd2cea7f7c03c23b0965400c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 33/55] fix: lower bound of live travel times while the live
 report is valid

---
 engine/src/datastr/graph/time_dependent/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..dbf8bb0 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -426,10 +426,11 @@ impl PessimisticLiveTDGraph {
     pub fn live_lower_bound(&self, edge_id: EdgeId, now: Timestamp, until: Timestamp) -> Weight {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
+            let tt_soon = ttf.eval(soon);
             if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+                let tt_until_soon = std::cmp::max(std::cmp::min(live, tt_soon), ttf.lower_bound_in_range(now..soon));
+                std::cmp::min(tt_until_soon, ttf.lower_bound_in_range(soon..until))
             } else {
-                let tt_soon = ttf.eval(soon);
                 std::cmp::min(live, tt_soon.saturating_add(soon - until))
             }
         } else {
-- 
2.43.0


From 7e378d77288fb68f1dcc8c1a362b62c4de2d9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 34/55] fix: settle nodes again when CATCHUp's lazy relaxation
 adds edges to the search space after they were settled

---
 engine/src/algo/catchup.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 56cdc1b..cd3058a 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -325,6 +325,9 @@ impl<'a> Server<'a> {
             node: self.from,
         });
 
+        // upward edges which were added to the search space while relaxing the edges of the current node
+        let mut newly_relevant = Vec::new();
+
         // while there is a node in the queue
         while let Some(State { node, .. }) = self.closest_node_priority_queue.pop() {
             if cfg!(feature = "detailed-stats") {
@@ -367,7 +370,12 @@ impl<'a> Server<'a> {
                                 lower_bound_target,
                                 self.customized_graph,
                                 lower_bounds_to_target,
-                                &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                &mut |edge_id| {
+                                    if !relevant_upward.get(edge_id as usize) {
+                                        relevant_upward.set(edge_id as usize);
+                                        newly_relevant.push(edge_id);
+                                    }
+                                },
                             )
                             .unwrap()
                     } else {
@@ -442,7 +450,12 @@ impl<'a> Server<'a> {
                                     lower_bound_target,
                                     self.customized_graph,
                                     lower_bounds_to_target,
-                                    &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                    &mut |edge_id| {
+                                    if !relevant_upward.get(edge_id as usize) {
+                                        relevant_upward.set(edge_id as usize);
+                                        newly_relevant.push(edge_id);
+                                    }
+                                },
                                 )
                                 .unwrap()
                         } else {
@@ -485,6 +498,23 @@ impl<'a> Server<'a> {
                     }
                 }
             }
+
+            // When zero travel times are involved, the tail of an edge which just became relevant may already have been settled.
+            // Then, we have to settle it again because otherwise, the edge would never be relaxed.
+            for edge_id in newly_relevant.drain(..) {
+                let tail = self.customized_graph.outgoing.tail()[edge_id as usize];
+                if self.distances[tail as usize] < Timestamp::NEVER && !self.closest_node_priority_queue.contains_index(tail as usize) {
+                    let lower = if cfg!(feature = "tdcch-query-astar") {
+                        lower_bounds_to_target[tail as usize]
+                    } else {
+                        FlWeight::ZERO
+                    };
+                    self.closest_node_priority_queue.push(State {
+                        key: self.distances[tail as usize] + lower,
+                        node: tail,
+                    });
+                }
+            }
         }
 
         if cfg!(feature = "detailed-stats") {
-- 
2.43.0


From 451fcd5782cd31c3178c9bd6b8ce7d2a37e8ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 35/55] fix: settle nodes again in the naive CATCHUp profile
 query when the search space grows after they were settled

---
 engine/src/algo/catchup/profiles_naive.rs | 34 +++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 3eeefee..5e3c518 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -332,6 +332,9 @@ impl<'a> Server<'a> {
         let mut unpack_time = Duration::ZERO;
         let mut link_merge_time = Duration::ZERO;
 
+        // upward edges which were added to the search space while relaxing the edges of the current node
+        let mut newly_relevant = Vec::new();
+
         // while there is a node in the queue
         while let Some(State { node, .. }) = self.closest_node_priority_queue.pop() {
             if cfg!(feature = "detailed-stats") {
@@ -368,7 +371,12 @@ impl<'a> Server<'a> {
                         self.customized_graph,
                         lower_bounds_to_target,
                         relevant_original,
-                        &mut |edge_id| relevant_upward.set(edge_id as usize),
+                        &mut |edge_id| {
+                            if !relevant_upward.get(edge_id as usize) {
+                                relevant_upward.set(edge_id as usize);
+                                newly_relevant.push(edge_id);
+                            }
+                        },
                     );
                 }
             }
@@ -402,7 +410,12 @@ impl<'a> Server<'a> {
                             self.customized_graph,
                             lower_bounds_to_target,
                             relevant_original,
-                            &mut |edge_id| relevant_upward.set(edge_id as usize),
+                            &mut |edge_id| {
+                                if !relevant_upward.get(edge_id as usize) {
+                                    relevant_upward.set(edge_id as usize);
+                                    newly_relevant.push(edge_id);
+                                }
+                            },
                         );
                     }
                 }
@@ -529,6 +542,23 @@ impl<'a> Server<'a> {
                 }
             }
 
+            // When zero travel times are involved, the tail of an edge which just became relevant may already have been settled.
+            // Then, we have to settle it again because otherwise, the edge would never be relaxed.
+            for edge_id in newly_relevant.drain(..) {
+                let tail = self.customized_graph.outgoing.tail()[edge_id as usize];
+                if self.distances[tail as usize].is_some() && !self.closest_node_priority_queue.contains_index(tail as usize) {
+                    let lower = if cfg!(feature = "tdcch-query-astar") {
+                        lower_bounds_to_target[tail as usize]
+                    } else {
+                        FlWeight::ZERO
+                    };
+                    self.closest_node_priority_queue.push(State {
+                        key: self.bounds[tail as usize].0 + lower,
+                        node: tail,
+                    });
+                }
+            }
+
             link_merge_time = link_merge_time + relax_timer.get_passed();
         }
 
-- 
2.43.0


From 312cef9a55857ae56b638d81f3194a580527112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 36/55] fix: tolerate rounding when CATCHUp queries skip
 elimination tree nodes outside of the corridor

---
 engine/src/algo/catchup.rs                  | 4 ++--
 engine/src/algo/catchup/partial_profiles.rs | 4 ++--
 engine/src/algo/catchup/profiles.rs         | 4 ++--
 engine/src/algo/catchup/profiles_naive.rs   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index cd3058a..f92ef2e 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -145,7 +145,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -185,7 +185,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/partial_profiles.rs b/engine/src/algo/catchup/partial_profiles.rs
index a726bbd..8a7bec8 100644
--- a/engine/src/algo/catchup/partial_profiles.rs
+++ b/engine/src/algo/catchup/partial_profiles.rs
@@ -154,7 +154,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -189,7 +189,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/profiles.rs b/engine/src/algo/catchup/profiles.rs
index 730eb39..29c8ec0 100644
--- a/engine/src/algo/catchup/profiles.rs
+++ b/engine/src/algo/catchup/profiles.rs
@@ -151,7 +151,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -186,7 +186,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 5e3c518..ce42d69 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -151,7 +151,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -191,7 +191,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
-- 
2.43.0


From 89e0d1a01b9bb2bd1c32ed4e9e54faba0742d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 37/55] fix: inverse_evaluate must shift by whole periods, not
 by one second per period

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8f6d023..2727149 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -87,6 +87,7 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
         let wrap_val = self.ipps.first().unwrap().val;
         let (p, t) = (t - wrap_val).split_of_period();
         let t = t + wrap_val;
+        let period_offset = p * FlWeight::from(period());
 
         let first = self.first().unwrap();
         let last = self.last().unwrap();
@@ -104,7 +105,7 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
             }
         });
 
-        p + match pos {
+        period_offset + match pos {
             Ok(i) => unsafe { self.ipps.get_unchecked(i).at },
             Err(i) => {
                 let prev = unsafe { self.ipps.get_unchecked(i - 1) };
-- 
2.43.0


From 40ef7e2a5b5794f301aa9ce7bb2a9bd163fe2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:58 +0000
Subject: [PATCH 38/55] fix: merged path switchpoints keep the weight of the
 earlier switchpoint

---
 .../datastr/graph/floating_time_dependent/shortcut_source.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
index 2a2b062..6f56f3a 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
@@ -554,8 +554,8 @@ impl Sources for [(Timestamp, ShortcutSourceData)] {
                 ShortcutSource::from(c.cur().1).get_switchpoints(max(start, c.cur().0), min(end, c.next().0), shortcut_graph);
 
             if switchpoints.last().unwrap().1 == cur_switchpoints.first().unwrap().1 {
-                cur_switchpoints.first_mut().unwrap().0 = switchpoints.last().unwrap().0;
-                switchpoints.pop();
+                // the path is the same, but both time and weight have to be the ones of the earlier switchpoint
+                *cur_switchpoints.first_mut().unwrap() = switchpoints.pop().unwrap();
             }
             switchpoints.append(&mut cur_switchpoints);
             last_weight = end_weight;
-- 
2.43.0


From 22db23110a069ca4a3ddb23d2287d93dd0194a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:11 +0000
Subject: [PATCH 39/55] fix: IndexdMinHeap::drain must reset the positions of
 all elements

---
 engine/src/datastr/index_heap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 119de46..91a8008 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -162,7 +162,11 @@ impl<T: Ord + Indexing> IndexdMinHeap<T> {
     }
 
     pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
-        self.data.drain(..).inspect(|item| self.positions[item.as_index()] = INVALID_POSITION)
+        // all elements are removed, even if the iterator is not consumed completely
+        for item in &self.data {
+            self.positions[item.as_index()] = INVALID_POSITION;
+        }
+        self.data.drain(..)
     }
 
     fn move_up_in_tree(&mut self, mut position: usize) {
-- 
2.43.0


From ae72c169362f567c329843d7d646365c0b7fa4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:11 +0000
Subject: [PATCH 40/55] fix: derive both pointers from the same borrow when
 moving the hole of the index heap

---
 engine/src/datastr/index_heap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 91a8008..2e6d2d3 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -295,8 +295,9 @@ impl<'a, T> Hole<'a, T> {
     unsafe fn move_to(&mut self, index: usize) {
         debug_assert!(index != self.pos);
         debug_assert!(index < self.data.len());
-        let index_ptr: *const _ = self.data.get_unchecked(index);
-        let hole_ptr = self.data.get_unchecked_mut(self.pos);
+        let ptr = self.data.as_mut_ptr();
+        let index_ptr: *const _ = ptr.add(index);
+        let hole_ptr = ptr.add(self.pos);
         ptr::copy_nonoverlapping(index_ptr, hole_ptr, 1);
         self.pos = index;
     }
-- 
2.43.0


From 7131738eadc5cfcf4fb274ac7892c0cac48c88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:00 +0000
Subject: [PATCH 41/55] fix: BitVec must be deallocated with the layout it was
 allocated with

---
 engine/src/datastr/rank_select_map.rs | 47 +++++++++++++++++++--------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..7a3aaae 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -1,10 +1,10 @@
 //! Data structure to efficiently map a large noncensecutive global id space into a smaller consecutive id space from 0 to n where the order is preserved
 
 use std::cmp::min;
-use std::mem::size_of;
+use std::mem::{size_of, ManuallyDrop};
 use std::ops::Deref;
 
-use std::alloc::{alloc_zeroed, Layout};
+use std::alloc::{alloc_zeroed, dealloc, handle_alloc_error, Layout};
 
 use crate::io::*;
 
@@ -21,25 +21,46 @@ const STORAGE_BITS: usize = u64::BITS as usize;
 /// - the memory needs to be aligned to the cache line width
 /// -> create a thin wrapper around a Vec<u64>, where we do the first allocation ourselves, and have operations to set individual bits
 pub struct BitVec {
-    data: Vec<u64>,
+    // allocated with `BitVec::layout`, so we have to do the deallocation ourselves
+    data: ManuallyDrop<Vec<u64>>,
     size: usize,
 }
 
+impl Drop for BitVec {
+    fn drop(&mut self) {
+        if self.data.capacity() > 0 {
+            unsafe { dealloc(self.data.as_mut_ptr() as *mut u8, Self::layout(self.data.capacity())) }
+        }
+    }
+}
+
 impl BitVec {
+    fn layout(num_ints: usize) -> Layout {
+        Layout::from_size_align(num_ints * size_of::<u64>(), CACHE_LINE_WIDTH).unwrap()
+    }
+
     /// Create a new `BitVec` with at least the specified number of bits
     pub fn new(size: usize) -> BitVec {
         // ceiling to the right number of u64s
         let num_ints = (size + STORAGE_BITS - 1) / STORAGE_BITS;
-        let data = unsafe {
-            let pointer = alloc_zeroed(Layout::from_size_align(num_ints * size_of::<usize>(), CACHE_LINE_WIDTH).unwrap());
-            // TODO: freeing will supply a different alignment (the one of u64)
-            // appearently this is not a problem, but it could be some day
-            // so we probably should also do the dropping ourselves
-            #[allow(clippy::cast_ptr_alignment)] // was actually allocated with greater alignment
-            Vec::from_raw_parts(pointer as *mut u64, num_ints, num_ints)
+        let data = if num_ints == 0 {
+            Vec::new()
+        } else {
+            let layout = Self::layout(num_ints);
+            unsafe {
+                let pointer = alloc_zeroed(layout);
+                if pointer.is_null() {
+                    handle_alloc_error(layout);
+                }
+                #[allow(clippy::cast_ptr_alignment)] // was actually allocated with greater alignment
+                Vec::from_raw_parts(pointer as *mut u64, num_ints, num_ints)
+            }
         };
 
-        BitVec { data, size }
+        BitVec {
+            data: ManuallyDrop::new(data),
+            size,
+        }
     }
 
     /// Get individual bit value of position `index`.
@@ -81,14 +102,14 @@ impl BitVec {
 
     /// Zero all bits.
     pub fn clear(&mut self) {
-        for val in &mut self.data {
+        for val in self.data.iter_mut() {
             *val = 0;
         }
     }
 
     /// Set all bits to 1.
     pub fn set_all(&mut self) {
-        for val in &mut self.data {
+        for val in self.data.iter_mut() {
             *val = !0;
         }
     }
-- 
2.43.0


From c68b5faa7b97164b01cea3ed5ccea446618ee793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 42/55] fix: BitVec::set_all must not set bits beyond the size

---
 engine/src/datastr/rank_select_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 7a3aaae..a19967c 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -112,6 +112,12 @@ impl BitVec {
         for val in self.data.iter_mut() {
             *val = !0;
         }
+        // bits beyond the size have to stay unset, they would be counted otherwise
+        if self.size % STORAGE_BITS != 0 {
+            if let Some(last) = self.data.last_mut() {
+                *last = (1 << (self.size % STORAGE_BITS)) - 1;
+            }
+        }
     }
 
     /// The total number of bits set to 1.
-- 
2.43.0


From 3f8d708b0b38667211168b58acf8f5d6419de918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 43/55] fix: reversing filtered graphs, where links are fewer
 than arcs

---
 engine/src/datastr/graph/first_out_graph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/engine/src/datastr/graph/first_out_graph.rs b/engine/src/datastr/graph/first_out_graph.rs
index eab7310..668328c 100644
--- a/engine/src/datastr/graph/first_out_graph.rs
+++ b/engine/src/datastr/graph/first_out_graph.rs
@@ -141,8 +141,8 @@ impl<G: LinkIterable<Link>> BuildReversed<G> for OwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
-        let mut weights = vec![0; graph.num_arcs()];
+        let mut head = vec![0; prefix_sum as usize];
+        let mut weights = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
@@ -503,7 +503,7 @@ impl<G: LinkIterable<NodeIdT>> BuildReversed<G> for UnweightedOwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
+        let mut head = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
@@ -567,8 +567,8 @@ impl<G: LinkIterable<(NodeIdT, EdgeIdT)>> BuildReversed<G> for ReversedGraphWith
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
-        let mut edge_ids = vec![0; graph.num_arcs()];
+        let mut head = vec![0; prefix_sum as usize];
+        let mut edge_ids = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
-- 
2.43.0


From 8a2e699a3b1c311c3701472638d07d077900c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 44/55] fix: inverse of rank select maps with completely empty
 blocks

---
 engine/src/datastr/rank_select_map.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index a19967c..c04b5cb 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -357,10 +357,9 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // the last block with a prefix sum not exceeding the value, blocks before it with the same prefix sum are empty
+        let block_index =
+            self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].partition_point(|&prefix| prefix <= value) - 1 + self.blocks[group];
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From c4d35066f6882f4f06c27abc43e0a28db53a2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 45/55] fix: smooth upper bounds of traffic aware interval
 potentials for arcs improved by perfect customization

---
 .../src/algo/traffic_aware/td_traffic_pots.rs | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index a988e2d..5e247d8 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -747,10 +747,12 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             .zip(catchup.fw_static_bound.par_iter())
             .zip(fw_upper_bound_by_smooth.par_iter())
             .zip(customized_smooth.forward_graph().weight().par_iter())
-            .for_each(|(((comb, catchup_static), upper_by_smooth), smooth)| {
+            .zip(smooth_mod.0.par_iter())
+            .for_each(|((((comb, catchup_static), upper_by_smooth), smooth), smooth_required)| {
                 comb.0 .0 = catchup_static.0;
                 comb.0 .1 = *upper_by_smooth;
-                comb.1 = *smooth;
+                // the upper bound does not belong to the shortest smooth path when perfect customization found a shorter one
+                comb.1 = if *smooth_required { *smooth } else { INFINITY };
             });
 
         bw_static_combined
@@ -758,10 +760,12 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             .zip(catchup.bw_static_bound.par_iter())
             .zip(bw_upper_bound_by_smooth.par_iter())
             .zip(customized_smooth.backward_graph().weight().par_iter())
-            .for_each(|(((comb, catchup_static), upper_by_smooth), smooth)| {
+            .zip(smooth_mod.1.par_iter())
+            .for_each(|((((comb, catchup_static), upper_by_smooth), smooth), smooth_required)| {
                 comb.0 .0 = catchup_static.0;
                 comb.0 .1 = *upper_by_smooth;
-                comb.1 = *smooth;
+                // the upper bound does not belong to the shortest smooth path when perfect customization found a shorter one
+                comb.1 = if *smooth_required { *smooth } else { INFINITY };
             });
 
         Self::new_int(
@@ -824,10 +828,12 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             .zip(catchup.fw_static_bound.par_iter())
             .zip(fw_upper_bound_by_smooth.par_iter())
             .zip(customized_smooth.forward_graph().weight().par_iter())
-            .for_each(|(((comb, catchup_static), upper_by_smooth), smooth)| {
+            .zip(smooth_mod.0.par_iter())
+            .for_each(|((((comb, catchup_static), upper_by_smooth), smooth), smooth_required)| {
                 comb.0 .0 = catchup_static.0;
                 comb.0 .1 = *upper_by_smooth;
-                comb.1 = *smooth;
+                // the upper bound does not belong to the shortest smooth path when perfect customization found a shorter one
+                comb.1 = if *smooth_required { *smooth } else { INFINITY };
             });
 
         bw_static_combined
@@ -835,10 +841,12 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             .zip(catchup.bw_static_bound.par_iter())
             .zip(bw_upper_bound_by_smooth.par_iter())
             .zip(customized_smooth.backward_graph().weight().par_iter())
-            .for_each(|(((comb, catchup_static), upper_by_smooth), smooth)| {
+            .zip(smooth_mod.1.par_iter())
+            .for_each(|((((comb, catchup_static), upper_by_smooth), smooth), smooth_required)| {
                 comb.0 .0 = catchup_static.0;
                 comb.0 .1 = *upper_by_smooth;
-                comb.1 = *smooth;
+                // the upper bound does not belong to the shortest smooth path when perfect customization found a shorter one
+                comb.1 = if *smooth_required { *smooth } else { INFINITY };
             });
 
         Self::new_int(
-- 
2.43.0


From c775fe9b7813f9b4849db34f1844d552723d3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 46/55] fix: underflow when looking for the parent label in
 time-dependent traffic aware routing

---
 engine/src/algo/traffic_aware/td_live.rs        | 2 +-
 engine/src/algo/traffic_aware/time_dependent.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index b5b0882..ec26f5d 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -108,7 +108,7 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
                             .min_by_key(|&EdgeIdT(edge_id)| self.live_graph.eval(edge_id, l.0))
                             .unwrap();
 
-                        l.0 == dist - self.live_graph.eval(min_weight_edge.0, l.0) && l.1.is_subset(parent_active_forb_paths)
+                        l.0 + self.live_graph.eval(min_weight_edge.0, l.0) == *dist && l.1.is_subset(parent_active_forb_paths)
                     })
                     .unwrap();
 
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index a640a3a..d67282d 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -108,7 +108,7 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
                             .min_by_key(|&EdgeIdT(edge_id)| self.live_graph.travel_time_function(edge_id).eval(l.0))
                             .unwrap();
 
-                        l.0 == dist - self.live_graph.travel_time_function(min_weight_edge.0).eval(l.0) && l.1.is_subset(parent_active_forb_paths)
+                        l.0 + self.live_graph.travel_time_function(min_weight_edge.0).eval(l.0) == *dist && l.1.is_subset(parent_active_forb_paths)
                     })
                     .unwrap();
 
-- 
2.43.0


From 448c487652e6995f195fdd304f616d42379cfb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 47/55] fix: underflow of the reported increase when rounded
 potentials miss the fastest path

---
 engine/src/algo/traffic_aware/td_live.rs        | 6 +++---
 engine/src/algo/traffic_aware/time_dependent.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index ec26f5d..6d87cba 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -235,7 +235,7 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         if let Some(base_live_dist) = base_live_dist {
             report!(
                 "length_increase_percent",
-                (final_live_dist - base_live_dist) as f64 / base_live_dist as f64 * 100.0
+                (final_live_dist as f64 - base_live_dist as f64) / base_live_dist as f64 * 100.0
             );
         }
         report!("total_exploration_time_ms", explore_time.as_secs_f64() * 1000.0);
@@ -290,7 +290,7 @@ impl<'a, P: TDPotential> IterativePathFixing<'a, P> {
         if let Some(base_live_dist) = base_live_dist {
             report!(
                 "length_increase_percent",
-                (final_live_dist - base_live_dist) as f64 / base_live_dist as f64 * 100.0
+                (final_live_dist as f64 - base_live_dist as f64) / base_live_dist as f64 * 100.0
             );
         }
         Some(())
@@ -337,7 +337,7 @@ impl<'a, P: TDPotential> SmoothPathBaseline<'a, P> {
         if let Some(base_live_dist) = base_live_dist {
             report!(
                 "length_increase_percent",
-                (final_live_dist - base_live_dist) as f64 / base_live_dist as f64 * 100.0
+                (final_live_dist as f64 - base_live_dist as f64) / base_live_dist as f64 * 100.0
             );
         }
         Some(())
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index d67282d..0dca6f0 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -236,7 +236,7 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         if let Some(base_live_dist) = base_live_dist {
             report!(
                 "length_increase_percent",
-                (final_live_dist - base_live_dist) as f64 / base_live_dist as f64 * 100.0
+                (final_live_dist as f64 - base_live_dist as f64) / base_live_dist as f64 * 100.0
             );
         }
         report!("total_exploration_time_ms", explore_time.as_secs_f64() * 1000.0);
@@ -291,7 +291,7 @@ impl<'a, P: TDPotential> IterativePathFixing<'a, P> {
         if let Some(base_live_dist) = base_live_dist {
             report!(
                 "length_increase_percent",
-                (final_live_dist - base_live_dist) as f64 / base_live_dist as f64 * 100.0
+                (final_live_dist as f64 - base_live_dist as f64) / base_live_dist as f64 * 100.0
             );
         }
         Some(())
@@ -338,7 +338,7 @@ impl<'a, P: TDPotential> SmoothPathBaseline<'a, P> {
         if let Some(base_live_dist) = base_live_dist {
             report!(
                 "length_increase_percent",
-                (final_live_dist - base_live_dist) as f64 / base_live_dist as f64 * 100.0
+                (final_live_dist as f64 - base_live_dist as f64) / base_live_dist as f64 * 100.0
             );
         }
         Some(())
-- 
2.43.0


From 252c52539a898ec3cc7be5f37d59a1d1c674227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 48/55] fix: wrong debug assertion mapping ToRef arcs back to
 HERE links

---
 conversion/src/here/link_id_mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/here/link_id_mapper.rs b/conversion/src/here/link_id_mapper.rs
index a2a1c4b..55dfbab 100644
--- a/conversion/src/here/link_id_mapper.rs
+++ b/conversion/src/here/link_id_mapper.rs
@@ -49,7 +49,7 @@ impl LinkIdMapper {
         let direction = if self.here_rank_to_link_id[rank].0.value() == Some(link_id) {
             LinkDirection::FromRef
         } else {
-            debug_assert_eq!(self.here_rank_to_link_id[rank].0.value(), Some(link_id));
+            debug_assert_eq!(self.here_rank_to_link_id[rank].1.value(), Some(link_id));
             LinkDirection::ToRef
         };
         (here_link_id, direction)
-- 
2.43.0


From 991efca0d79ea9e51f284e9f1b8fe3ed7e581719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 49/55] fix: a query with a non existing link must not take
 down the server

---
 server/src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 49534ba..0f76868 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -117,11 +117,10 @@ fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
-        let tx_query = state.lock().unwrap();
         let (tx_result, rx_result) = mpsc::channel::<Option<HereResponse>>();
 
-        tx_query.send(Request::Here((*query_params, tx_result))).unwrap();
-        rx_result.recv().expect("routing engine crashed or hung up")
+        state.lock().unwrap().send(Request::Here((*query_params, tx_result))).unwrap();
+        rx_result.recv().expect("non existing link or routing engine crashed or hung up")
     });
 
     println!();
@@ -261,12 +260,19 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result,
                     )) => {
                         let from_link_direction = if from_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let from_link_local_id = id_mapper.here_to_local_link_id(from_link_id, from_link_direction).expect("non existing link");
+                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                        let (from_link_local_id, to_link_local_id) = match (
+                            id_mapper.here_to_local_link_id(from_link_id, from_link_direction),
+                            id_mapper.here_to_local_link_id(to_link_id, to_link_direction),
+                        ) {
+                            (Some(from_link_local_id), Some(to_link_local_id)) => (from_link_local_id, to_link_local_id),
+                            // non existing link, dropping `tx_result` makes only this request fail
+                            _ => continue,
+                        };
+
                         let from_link = graph.link(from_link_local_id);
                         let from = from_link.node;
 
-                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let to_link_local_id = id_mapper.here_to_local_link_id(to_link_id, to_link_direction).expect("non existing link");
                         let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-- 
2.43.0


From 29b0eb7680ee8d34a7ae79aea8b2dcdd7aaf5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 50/55] fix: carry over customized weights into later
 customizations of the server

---
 server/src/main.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 0f76868..50042b7 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -209,7 +209,12 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        let server = Arc::new(Mutex::new(Server::new(cch_customize(&cch, &graph))));
+        // the server and the number of the customization it currently uses
+        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), 0)));
+
+        // weights including all customizations received so far
+        let mut travel_time = travel_time;
+        let mut num_customizations = 0;
 
         let coords = |node: NodeId| -> (f32, f32) { (lat[node as usize], lng[node as usize]) };
         let closest_node = |(p_lat, p_lng): (f32, f32)| -> NodeId {
@@ -237,7 +242,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let mut server = server.lock().unwrap();
+                        let (server, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -276,7 +281,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                         let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let mut server = server.lock().unwrap();
+                        let (server, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance()
@@ -314,25 +319,33 @@ fn main() -> Result<(), Box<dyn Error>> {
                     }
                     Request::Customize(updates) => {
                         let server = server.clone();
-                        let mut travel_time = travel_time.clone();
-                        let id_mapper = &id_mapper;
+
+                        for (here_link_id, is_from_ref, weight) in updates.into_iter() {
+                            if is_from_ref {
+                                if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::FromRef) {
+                                    travel_time[link_idx as usize] = weight.0
+                                }
+                            } else if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::ToRef) {
+                                travel_time[link_idx as usize] = weight.0
+                            }
+                        }
+                        num_customizations += 1;
+
+                        let travel_time = travel_time.clone();
+                        let customization = num_customizations;
                         let cch = &cch;
                         let first_out = &first_out;
                         let head = &head;
 
                         // asynchronous customization
                         scope.spawn(move |_| {
-                            for (here_link_id, is_from_ref, weight) in updates.into_iter() {
-                                if is_from_ref {
-                                    if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::FromRef) {
-                                        travel_time[link_idx as usize] = weight.0
-                                    }
-                                } else if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::ToRef) {
-                                    travel_time[link_idx as usize] = weight.0
-                                }
-                            }
                             let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            server.lock().unwrap().update(customized);
+                            let (server, current) = &mut *server.lock().unwrap();
+                            // customizations may finish in any order
+                            if customization > *current {
+                                server.update(customized);
+                                *current = customization;
+                            }
                         });
                     }
                 }
-- 
2.43.0


From bfb751cc60d6b5a329b9c7ef2cc336d332fdefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 51/55] fix: here queries have to use the customized weights of
 the links

---
 server/src/main.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 50042b7..f6e6b93 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -209,8 +209,8 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        // the server and the number of the customization it currently uses
-        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), 0)));
+        // the server, the weights it currently uses and the number of the corresponding customization
+        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), travel_time.clone(), 0)));
 
         // weights including all customizations received so far
         let mut travel_time = travel_time;
@@ -242,7 +242,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let (server, _) = &mut *server.lock().unwrap();
+                        let (server, _, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -275,18 +275,23 @@ fn main() -> Result<(), Box<dyn Error>> {
                             _ => continue,
                         };
 
-                        let from_link = graph.link(from_link_local_id);
-                        let from = from_link.node;
-
-                        let to_link = graph.link(to_link_local_id);
+                        let from = graph.link(from_link_local_id).node;
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let (server, _) = &mut *server.lock().unwrap();
+                        let (server, weights, _) = &mut *server.lock().unwrap();
+                        let from_weight = weights[from_link_local_id as usize];
+                        let to_weight = weights[to_link_local_id as usize];
+                        if from_weight >= INFINITY || to_weight >= INFINITY {
+                            tx_result.send(None).unwrap();
+                            continue;
+                        }
+
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
-                                let distance = result.distance()
-                                    + (from_link_fraction * from_link.weight as f32) as u32
-                                    + (to_link_fraction * to_link.weight as f32) as u32;
+                                let distance = result
+                                    .distance()
+                                    .saturating_add((from_link_fraction * from_weight as f32) as u32)
+                                    .saturating_add((to_link_fraction * to_weight as f32) as u32);
 
                                 let path = result.node_path();
                                 let path_iter = path.iter();
@@ -300,7 +305,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                                             .map(|(first_node, second_node)| {
                                                 graph
                                                     .edge_indices(*first_node, *second_node)
-                                                    .min_by_key(|&EdgeIdT(edge)| graph.weight()[edge as usize])
+                                                    .min_by_key(|&EdgeIdT(edge)| weights[edge as usize])
                                                     .unwrap()
                                             })
                                             .map(|EdgeIdT(link_id)| {
@@ -339,11 +344,12 @@ fn main() -> Result<(), Box<dyn Error>> {
 
                         // asynchronous customization
                         scope.spawn(move |_| {
-                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            let (server, current) = &mut *server.lock().unwrap();
+                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], &travel_time[..]));
+                            let (server, weights, current) = &mut *server.lock().unwrap();
                             // customizations may finish in any order
                             if customization > *current {
                                 server.update(customized);
+                                *weights = travel_time;
                                 *current = customization;
                             }
                         });
-- 
2.43.0


From 48119a65adc9ed12380057e88251bb7e2f471f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 52/55] fix: smoothing of Mapbox speeds has to wrap around
 midnight

---
 conversion/src/bin/import_td_mapbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/bin/import_td_mapbox.rs b/conversion/src/bin/import_td_mapbox.rs
index ef98a10..605ede7 100644
--- a/conversion/src/bin/import_td_mapbox.rs
+++ b/conversion/src/bin/import_td_mapbox.rs
@@ -79,7 +79,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     let speeds_old = speeds.clone();
                     let num_buckets = speeds.len();
                     for i in 0..num_buckets {
-                        let idx = |offset: isize| ((i as isize + offset) as usize) % num_buckets;
+                        let idx = |offset: isize| (i as isize + offset).rem_euclid(num_buckets as isize) as usize;
                         speeds[i] = (speeds_old[idx(-3)]
                             + speeds_old[idx(-2)]
                             + speeds_old[idx(-1)]
-- 
2.43.0


From d2e63f5b4f51231025a5bc240eb911de6b7f658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 53/55] fix: the last column of a line ends with the line break

---
 conversion/src/bin/scrub_td_mapbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/bin/scrub_td_mapbox.rs b/conversion/src/bin/scrub_td_mapbox.rs
index 04b1c1c..00e698a 100644
--- a/conversion/src/bin/scrub_td_mapbox.rs
+++ b/conversion/src/bin/scrub_td_mapbox.rs
@@ -12,7 +12,7 @@ fn main() {
     let mut cin = stdin.lock();
     let mut s = String::new();
     while cin.read_line(&mut s).unwrap() > 0 {
-        let mut iter = s.split(',').map(|x| x.parse::<u64>().unwrap());
+        let mut iter = s.trim_end().split(',').map(|x| x.parse::<u64>().unwrap());
         let tail = iter.next().unwrap();
         let head = iter.next().unwrap();
         let values = iter.skip(start).take(end - start).map(|speed| speed as u8).collect::<Vec<u8>>();
-- 
2.43.0


From 9cb7b105593fa9409396b1b77f437510a0dcc5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 54/55] fix: lower bounds are already reported by the query

---
 chpot/src/bin/chpot_dijkstra_ranks.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/chpot/src/bin/chpot_dijkstra_ranks.rs b/chpot/src/bin/chpot_dijkstra_ranks.rs
index 3d93522..234acdf 100644
--- a/chpot/src/bin/chpot_dijkstra_ranks.rs
+++ b/chpot/src/bin/chpot_dijkstra_ranks.rs
@@ -58,7 +58,6 @@ fn main() -> Result<(), Box<dyn Error>> {
             report!("result", dist);
             res.node_path().expect("Dijkstra Rank Query should always have a path");
             report!("num_pot_computations", res.data().potential().num_pot_computations());
-            report!("lower_bound", res.data().lower_bound(from));
         });
     }
 
-- 
2.43.0


From 85f5d480844c5824305239a70a568f186ca16fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 55/55] fix: report times as u64, u128 is not supported

---
 chpot/src/bin/lazy_rphast_incremental.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chpot/src/bin/lazy_rphast_incremental.rs b/chpot/src/bin/lazy_rphast_incremental.rs
index 47d08d2..b81a341 100644
--- a/chpot/src/bin/lazy_rphast_incremental.rs
+++ b/chpot/src/bin/lazy_rphast_incremental.rs
@@ -64,7 +64,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     if (i & (i - 1)) == 0 {
                         let _state_ctx = progress.push_collection_item();
                         report!("terminal_rank", i.trailing_zeros());
-                        report!("passed_time_mus", timer.get_passed().as_micros());
+                        report!("passed_time_mus", timer.get_passed().as_micros() as u64);
                     }
                 }
             }
@@ -89,7 +89,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     if (i & (i - 1)) == 0 {
                         let _state_ctx = progress.push_collection_item();
                         report!("terminal_rank", i.trailing_zeros());
-                        report!("passed_time_mus", timer.get_passed().as_micros());
+                        report!("passed_time_mus", timer.get_passed().as_micros() as u64);
                     }
                 }
             }
-- 
2.43.0

