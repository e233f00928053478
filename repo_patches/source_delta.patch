From 6a3de30ea7c06573dba7c6684b46762b4e1e171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 01/19] fix: IndexdMinHeap::drain forgets all entries even if
 the iterator is dropped early

---
 engine/src/datastr/index_heap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 119de46..da618e8 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -162,7 +162,11 @@ impl<T: Ord + Indexing> IndexdMinHeap<T> {
     }
 
     pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
-        self.data.drain(..).inspect(|item| self.positions[item.as_index()] = INVALID_POSITION)
+        // Invalidate eagerly: the returned iterator may be dropped before it is exhausted.
+        for item in &self.data {
+            self.positions[item.as_index()] = INVALID_POSITION;
+        }
+        self.data.drain(..)
     }
 
     fn move_up_in_tree(&mut self, mut position: usize) {
-- 
2.43.0


From 93f520e18a3aa6d809767567e1f4e222b3f8f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:44 +0000
Subject: [PATCH 02/19] fix: InvertableRankSelectMap::inverse picks the right
 block next to empty blocks

---
 engine/src/datastr/rank_select_map.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..e322c37 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -330,10 +330,9 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // the last block starting at or before `value` - there may be several (empty) ones with the same prefix sum
+        let block_index =
+            self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].partition_point(|&prefix_sum| prefix_sum <= value) - 1 + self.blocks[group];
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From b18498157dcbd9400a08658dd0f8d955de89ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:22 +0000
Subject: [PATCH 03/19] fix: BitVec::set_all leaves the padding bits of the
 last int unset

---
 engine/src/datastr/rank_select_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index e322c37..1a3c31f 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -91,6 +91,12 @@ impl BitVec {
         for val in &mut self.data {
             *val = !0;
         }
+        // bits of the last int beyond the size stay zero, they must not be counted
+        let used_bits_in_last = self.size % STORAGE_BITS;
+        if used_bits_in_last > 0 {
+            let last = self.size / STORAGE_BITS;
+            self.data[last] = (1 << used_bits_in_last) - 1;
+        }
     }
 
     /// The total number of bits set to 1.
-- 
2.43.0


From c04f36c4b18b25a291a21ff99909122850862749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:02 +0000
Subject: [PATCH 04/19] fix: rebuild_customized_perfect works with fewer arcs
 than chunks and with isolated lowest nodes

---
 .../customization.rs                                | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..39d81e5 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::report::*;
 use rayon::prelude::*;
-use std::{cell::RefCell, cmp::min};
+use std::{cell::RefCell, cmp::{max, min}};
 
 pub mod parallelization;
 use parallelization::*;
@@ -458,11 +458,12 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
             let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
+            // the first chunk has to start at the first node, even if it has no edges,
+            // and there may be fewer edges than chunks, the remaining chunks will be empty
+            let first_node_of_chunk: Vec<_> = std::iter::once(0)
+                .chain(cch.forward_tail().chunks(max(target_edges_per_thread, 1)).skip(1).map(|chunk| chunk[0] as usize))
+                .chain(std::iter::repeat(n))
+                .take(k + 1)
                 .collect();
 
             // let nodes_per_thread = (n + k - 1) / k;
-- 
2.43.0


From dd00cc6e499561ed6948a80e3ae089644f627e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 05/19] fix: partial contraction keeps the edges to the first
 uncontracted node

---
 engine/src/algo/contraction_hierarchy/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..f4ff2ec 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -164,12 +164,13 @@ impl ContractionGraph {
         let mut data = (DijkstraData::new(graph.nodes.len()), DijkstraData::new(graph.nodes.len()));
 
         // split of the lowest node, the one that will be contracted
-        while let Some((node, mut subgraph)) = graph.remove_lowest() {
-            if contraction_count == 0 {
-                break;
-            } else {
-                contraction_count -= 1;
-            }
+        // (only as long as there are nodes left to contract - `remove_lowest` also removes the edges to the split of node)
+        while contraction_count > 0 {
+            let (node, mut subgraph) = match graph.remove_lowest() {
+                Some(split) => split,
+                None => break,
+            };
+            contraction_count -= 1;
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
-- 
2.43.0


From 3a2c0a8825c795f3e042aba1a1b168479a24993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 06/19] fix: path unpacking of contraction hierarchy queries

---
 .../src/algo/contraction_hierarchy/query.rs   | 84 +++++++++----------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..f1c62b3 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,56 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
+    // Follow the parent pointers of both searches from the meeting node and unpack all shortcuts on the way.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
-        }
-
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
 
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
+        let mut up = vec![self.meeting_node];
+        while *up.last().unwrap() != from {
+            up.push(self.forward_data.predecessors[*up.last().unwrap() as usize].0);
+        }
+        up.reverse();
 
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
-                }
-            }
+        let mut down = vec![self.meeting_node];
+        while *down.last().unwrap() != to {
+            down.push(self.backward_data.predecessors[*down.last().unwrap() as usize].0);
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
+        let mut path = vec![from];
+        for arc in up.windows(2).chain(down.windows(2)) {
+            self.unpack_arc(arc[0], arc[1], &mut path);
+        }
 
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
+    }
+
+    // Append all nodes on the path represented by an arc except for the tail.
+    fn unpack_arc(&self, tail: NodeId, head: NodeId, path: &mut Vec<NodeId>) {
+        let (forward_middle_nodes, backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+        let mut stack = vec![(tail, head)];
+
+        while let Some((tail, head)) = stack.pop() {
+            // arcs are stored at their lower ranked end
+            let (graph, middle_nodes, low, high) = if tail < head {
+                (&self.forward, forward_middle_nodes, tail, head)
+            } else {
+                (&self.backward, backward_middle_nodes, head, tail)
+            };
+            let EdgeIdT(edge) = graph.edge_indices(low, high).min_by_key(|&EdgeIdT(edge)| graph.link(edge).weight).unwrap();
+            let middle = middle_nodes[edge as usize];
+
+            if middle < graph.num_nodes() as NodeId {
+                stack.push((middle, head));
+                stack.push((tail, middle));
+            } else {
+                path.push(head);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 4d448bc8baf24b7ea53ec2dcb97ccdb5de3e296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 07/19] fix: contraction of graphs with parallel edges

---
 engine/src/algo/contraction_hierarchy/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f4ff2ec..1631500 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -92,6 +92,13 @@ impl Node {
     }
 }
 
+/// Remove all but the shortest of several links to the same node.
+fn shortest_per_neighbor(mut links: Vec<(Link, NodeId)>) -> Vec<(Link, NodeId)> {
+    links.sort_unstable_by_key(|&(Link { node, weight }, _)| (node, weight));
+    links.dedup_by_key(|&mut (Link { node, .. }, _)| node);
+    links
+}
+
 /// Intermediate graph representation for during the preprocessing.
 /// During contraction, we need a dynamic graph, so we use a `Vec` of nodes instead of the typical adjacency array structure.
 struct ContractionGraph {
@@ -106,6 +113,7 @@ impl ContractionGraph {
         // We need to:
         // - filter out loops
         // - translate the node ids
+        // - reduce parallel edges to the shortest one, because there has to be a unique edge to update when inserting shortcuts
         // - create the struct we use during preprocessing
         let nodes = {
             let outs = (0..n).map(|node| {
@@ -138,7 +146,12 @@ impl ContractionGraph {
                     })
                     .collect()
             });
-            outs.zip(ins).map(|(outgoing, incoming)| Node { outgoing, incoming }).collect()
+            outs.zip(ins)
+                .map(|(outgoing, incoming)| Node {
+                    outgoing: shortest_per_neighbor(outgoing),
+                    incoming: shortest_per_neighbor(incoming),
+                })
+                .collect()
         };
 
         ContractionGraph { nodes }
-- 
2.43.0


From 01ce00ca6c0d2f47fbef7b03cd903438e4d1ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 08/19] fix: avoid landmark selection terminates on graphs with
 loops

---
 engine/src/algo/alt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/alt.rs b/engine/src/algo/alt.rs
index b27f7f5..b7e2aa7 100644
--- a/engine/src/algo/alt.rs
+++ b/engine/src/algo/alt.rs
@@ -120,7 +120,7 @@ impl ALTPotData {
             while let Some(next) = graph
                 .link_iter(v)
                 .map(|l| l.head())
-                .filter(|&l| dists.predecessor(l) == v)
+                .filter(|&l| l != v && dists.predecessor(l) == v)
                 .max_by_key(|&l| weights[l as usize])
             {
                 v = next;
-- 
2.43.0


From d7830cff0e3c7e67fee1dedeee54db16b9dfa3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:07 +0000
Subject: [PATCH 09/19] fix: bidirectional query with pruning returns the best
 path found

---
 .../dijkstra/query/bidirectional_dijkstra.rs     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
index 5956aac..b8f3d49 100644
--- a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
@@ -90,8 +90,12 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                         num_queue_pops += 1;
                         inspect(node, *forward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
                         if node == to {
-                            *meeting_node = to;
-                            return Some(*forward_dijkstra.tentative_distance(to));
+                            // with pruning, a shorter path might have been found before
+                            if *forward_dijkstra.tentative_distance(to) < tentative_distance {
+                                *meeting_node = to;
+                                tentative_distance = *forward_dijkstra.tentative_distance(to);
+                            }
+                            return Some(tentative_distance);
                         }
                     }
                 } else {
@@ -116,8 +120,12 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                         num_queue_pops += 1;
                         inspect(node, *backward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
                         if node == from {
-                            *meeting_node = from;
-                            return Some(*backward_dijkstra.tentative_distance(from));
+                            // with pruning, a shorter path might have been found before
+                            if *backward_dijkstra.tentative_distance(from) < tentative_distance {
+                                *meeting_node = from;
+                                tentative_distance = *backward_dijkstra.tentative_distance(from);
+                            }
+                            return Some(tentative_distance);
                         }
                     }
                 }
-- 
2.43.0


From 91a2ccb21e680716e23f1ebced8fa550c7d36544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:07 +0000
Subject: [PATCH 10/19] fix: stopping criterion of the average potential

---
 engine/src/algo/a_star.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index ed1313a..67fd888 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -297,7 +297,7 @@ impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP>
     }
 }
 
-use std::cmp::max;
+use std::cmp::{max, min};
 impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePotential<PF, PB, IP> {
     fn init(&mut self, source: NodeId, target: NodeId) {
         self.forward_potential.init(target);
@@ -305,19 +305,20 @@ impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePot
 
         self.fw_add = (self.backward_potential.potential(target).unwrap_or(INFINITY) / 2) as i32;
         self.bw_add = (self.forward_potential.potential(source).unwrap_or(INFINITY) / 2) as i32;
-        self.mu_add = self.potential(source).map(|p| (p + self.fw_add) as Weight).unwrap_or(0);
+        self.mu_add = (self.fw_add + self.bw_add) as Weight;
     }
     fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
         match (fw_min_queue, bw_min_queue) {
-            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist + self.mu_add,
+            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue as u64 + bw_min_queue as u64 >= stop_dist as u64 + self.mu_add as u64,
             _ => true,
         }
     }
+    // Negative values have to be avoided but the stopping criterion needs both potentials of a node to sum up to `mu_add`.
     fn forward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(p + self.fw_add, 0) as Weight)
+        self.potential(node).map(|p| min(max(p + self.fw_add, 0) as Weight, self.mu_add))
     }
     fn backward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(self.bw_add - p, 0) as Weight)
+        self.potential(node).map(|p| min(max(self.bw_add - p, 0) as Weight, self.mu_add))
     }
     fn forward_potential_raw(&mut self, node: NodeId) -> Option<Weight> {
         self.forward_potential.potential(node)
-- 
2.43.0


From 189405253362bbc13e1ab4fd60898a44cfee121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 11/19] fix: bucket potential asserts that the upper node is
 final

---
 engine/src/algo/ch_potentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..a273bf7 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -551,7 +551,7 @@ impl<GF: LinkIterGraph, GB: LinkIterGraph> BucketCHPotential<GF, GB> {
                 num_pot_computations,
                 num_targets,
             );
-            debug_assert!(pot_final.get(node as usize));
+            debug_assert!(pot_final.get(l.node as usize));
             let (potentials, upper_dists) = potentials.split_at_mut(l.node as usize);
             let head_dists = upper_dists[0].as_ref().unwrap();
             let self_dists = potentials[node as usize].as_mut().unwrap();
-- 
2.43.0


From d5aab57e80ea2660baf13f1fdaaa9fdf3f7e1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:30 +0000
Subject: [PATCH 12/19] fix: bucket based nearest neighbor query skips
 unreachable targets

---
 .../query/nearest_neighbor.rs                                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..542a2b3 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -215,6 +215,11 @@ impl<'a> BCCHNearestNeighbor<'a> {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
+                    // all remaining targets are not reachable via this node
+                    if dist >= INFINITY {
+                        break;
+                    }
+
                     if dist >= self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) && self.closest_targets.len() >= k {
                         break;
                     }
-- 
2.43.0


From 605eb6132492b50dc12d25669c177121524e254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:57 +0000
Subject: [PATCH 13/19] fix: bucket selection does not multiply unreachable
 terminals

---
 engine/src/algo/ch_potentials.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index a273bf7..4bbf11e 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -689,10 +689,12 @@ where
 
             for (NodeIdT(low_neighbor), weight) in self.incoming[node as usize].drain(..) {
                 for &(terminal, dist) in &self.distances[low_neighbor as usize] {
-                    if self.terminal_dists[terminal as usize] == INFINITY {
-                        self.used_terminals.push(NodeIdT(terminal));
+                    if dist + weight < self.terminal_dists[terminal as usize] {
+                        if self.terminal_dists[terminal as usize] == INFINITY {
+                            self.used_terminals.push(NodeIdT(terminal));
+                        }
+                        self.terminal_dists[terminal as usize] = dist + weight;
                     }
-                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist + weight);
                 }
             }
 
-- 
2.43.0


From 4059e7fd0b97510ba9d3495757afa03dcbfcdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:57 +0000
Subject: [PATCH 14/19] fix: separator based nearest neighbor query does not
 skip the cell of the source

---
 .../query/nearest_neighbor.rs                                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 542a2b3..8ed4a07 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -36,6 +36,7 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
         self.one_to_many.init(source);
+        let source_rank = self.cch.node_order().rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -100,7 +101,9 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
                 for child in &cell.children {
                     let top_cell_node = child.nodes.highest_ranked_node().unwrap();
                     let top_node_out_edges = self.cch.neighbor_edge_indices_usize(top_cell_node);
-                    let mut lower_bound_dist = INFINITY;
+                    let child_nodes_range = top_cell_node + 1 - child.num_nodes as NodeId..top_cell_node + 1;
+                    // the boundary does not separate the source from the targets in its own cell
+                    let mut lower_bound_dist = if child_nodes_range.contains(&source_rank) { 0 } else { INFINITY };
                     for &boundary in &self.cch.head()[top_node_out_edges] {
                         lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
                     }
-- 
2.43.0


From 1d77d945662c8acfcc9abc492f1f613036b98fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 15/19] fix: travel time bounds in a range cover ranges of a
 full period and ranges starting after the period

---
 .../piecewise_linear_function.rs              | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..3d23dc1 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -59,9 +59,13 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        let length = range.end.saturating_sub(range.start);
+        if length >= period() {
+            return self.lower_bound();
+        }
+        let start = range.start % period();
+        let (first_range, second_range) = (start..start + length).split(period());
+        let second_range = second_range.start - period()..second_range.end - period();
         std::cmp::min(self.lower_bound_in_included(first_range), self.lower_bound_in_included(second_range))
     }
 
@@ -93,9 +97,13 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        let length = range.end.saturating_sub(range.start);
+        if length >= period() {
+            return self.upper_bound();
+        }
+        let start = range.start % period();
+        let (first_range, second_range) = (start..start + length).split(period());
+        let second_range = second_range.start - period()..second_range.end - period();
         std::cmp::max(self.upper_bound_in_included(first_range), self.upper_bound_in_included(second_range))
     }
 
-- 
2.43.0


From 9ac6b852ea2469c5a6082fbb94e327595f6dea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 16/19] fix: upper travel time bound does not use infinity as
 neutral element of the maximum

---
 .../graph/time_dependent/piecewise_linear_function.rs       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 3d23dc1..fe0c9dc 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -109,15 +109,15 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     pub fn upper_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
-            return INFINITY;
+            return 0;
         }
         let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+            Location::On(index) => (index, 0),
             Location::Between(_lower_index, upper_index) => (upper_index, self.evaluate(range.start)),
         };
 
         let (last_idx, last_lower) = match self.departure_time.locate(range.end, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+            Location::On(index) => (index, 0),
             Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),
         };
 
-- 
2.43.0


From d3b8fb7abd79474216c5ab47d66fbcd244db5bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 17/19] fix: average travel time over constant functions and
 ranges wrapping around the period

---
 .../graph/time_dependent/piecewise_linear_function.rs        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index fe0c9dc..47e0813 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,9 +30,14 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
         let (first_range, second_range) = monotone_range.split(period());
+        let second_range = second_range.start - period()..second_range.end - period();
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-- 
2.43.0


From 87a9048489531cd5649e6f50d98fa6dfa2830220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 18/19] fix: lower bound of live travel times considers the
 time before the switch to the prediction

---
 engine/src/datastr/graph/time_dependent/graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..4a00102 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -427,7 +427,13 @@ impl PessimisticLiveTDGraph {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
             if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+                let predicted = ttf.lower_bound_in_range(soon..until);
+                if now < soon {
+                    // before soon, only the live value and the switch to the prediction limit the travel time
+                    std::cmp::min(predicted, std::cmp::min(live, ttf.eval(soon)))
+                } else {
+                    predicted
+                }
             } else {
                 let tt_soon = ttf.eval(soon);
                 std::cmp::min(live, tt_soon.saturating_add(soon - until))
-- 
2.43.0


From 2adce63bcd7fd033ff61db339e5da0e4ae85994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 19/19] fix: bidirectional A* pruning sums do not overflow

---
 engine/src/algo/a_star.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index 67fd888..d3ffcda 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -202,7 +202,7 @@ pub trait BiDirPotential {
             }
             if IMPROVED {
                 let remaining_by_queue = reverse_min_queue.saturating_sub(self.backward_potential(head).unwrap_or(INFINITY));
-                if fw_dist_head + remaining_by_queue >= max_dist {
+                if fw_dist_head.saturating_add(remaining_by_queue) >= max_dist {
                     return true;
                 }
             }
@@ -220,7 +220,7 @@ pub trait BiDirPotential {
             }
             if IMPROVED {
                 let remaining_by_queue = reverse_min_queue.saturating_sub(self.forward_potential(head).unwrap_or(INFINITY));
-                if bw_dist_head + remaining_by_queue >= max_dist {
+                if bw_dist_head.saturating_add(remaining_by_queue) >= max_dist {
                     return true;
                 }
             }
-- 
2.43.0

