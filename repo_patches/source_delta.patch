From 56bc9b6345460156cfbdb0abf07217b789708ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 1/8] fix: do not let path weights wrap around

Path weights that do not fit into Weight wrapped around in release mode (and
panicked in debug mode), so that calc_path returned a tiny weight for a very
long path, or picked that path instead of the shortest one. Weights now
saturate at WEIGHT_MAX, which already means 'no path'.
---
 src/node_contractor.rs |  6 +++++-
 src/path_calculator.rs | 20 +++++++++++++-------
 src/witness_search.rs  |  2 +-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..f658d41 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,11 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            // a path whose weight cannot be represented saturates at WEIGHT_MAX, i.e. it does
+            // not exist and needs no shortcut
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..20674a8 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,7 +93,7 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
                     best_weight = *start_weight + *end_weight;
                     meeting_node = *end_node;
@@ -142,7 +142,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
@@ -150,7 +150,10 @@ impl PathCalculator {
                 }
                 self.data_fwd[curr.node_id].settled = true;
                 if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id))
+                        < best_weight
                 {
                     best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
                     meeting_node = curr.node_id;
@@ -178,7 +181,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
@@ -186,7 +189,10 @@ impl PathCalculator {
                 }
                 self.data_bwd[curr.node_id].settled = true;
                 if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id))
+                        < best_weight
                 {
                     best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
                     meeting_node = curr.node_id;
@@ -220,7 +226,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +243,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..dab91a1 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -131,7 +131,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From 414736abedceeb5f64df409719bf0a25925abc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 2/8] fix: refuse u32::MAX in the 32bit representation instead
 of corrupting it

u32::MAX stands for usize::MAX in a FastGraph32, so a weight of 2^32 - 1 was
silently turned into usize::MAX by a round trip, i.e. the edge was lost.
---
 README.md           |  2 +-
 src/fast_graph32.rs | 14 ++++++++------
 src/lib.rs          |  3 ++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/README.md b/README.md
index c2e9da6..c73b36a 100644
--- a/README.md
+++ b/README.md
@@ -81,7 +81,7 @@ let shortest_path = path_calculator.calc_path_multiple_sources_and_targets(&fast
 
 `FastGraph` implements standard [Serde](https://serde.rs/) serialization.
 
-To be able to use the graph in a 32bit WebAssembly environment, it needs to be transformed to a 32bit representation when preparing it on a 64bit system. This can be achieved with the following two methods, but it will only work for graphs that do not exceed the 32bit limit, i.e. the number of nodes and edges and all weights must be below 2^32.
+To be able to use the graph in a 32bit WebAssembly environment, it needs to be transformed to a 32bit representation when preparing it on a 64bit system. This can be achieved with the following two methods, but it will only work for graphs that do not exceed the 32bit limit, i.e. the number of nodes and edges and all weights must be below 2^32 - 1.
 
 ```rust
 use fast_paths::{deserialize_32, serialize_32, FastGraph};
diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..5904dc0 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -42,7 +42,8 @@ pub struct FastGraph32 {
 impl FastGraph32 {
     /// Creates a 32bit Graph from a given `FastGraph`. All (potentially 64bit) `usize` integers are
     /// simply converted to u32 and if a value exceeds the 32bit limit an error is thrown. The only
-    /// exception is `std::u32::MAX`, which is converted to `std::usize::MAX`.
+    /// exception is `std::usize::MAX`, which is converted to `std::u32::MAX`. Since this makes
+    /// `std::u32::MAX` a reserved value it counts as exceeding the limit as well.
     pub fn new(fast_graph: &FastGraph) -> Self {
         FastGraph32 {
             num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
@@ -79,11 +80,12 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
-    } else if let Ok(x) = u32::try_from(int) {
-        x
-    } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        return std::u32::MAX;
+    }
+    match u32::try_from(int) {
+        // std::u32::MAX is reserved for std::usize::MAX
+        Ok(x) if x != std::u32::MAX => x,
+        _ => panic!("Could not convert {} to a 32-bit integer", int),
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 13ba59c..a6760cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -114,7 +114,8 @@ pub fn get_node_ordering(fast_graph: &FastGraph) -> Vec<NodeId> {
 /// When serializing a `FastGraph` in a larger struct, use `#[serde(serialize_with =
 /// "fast_paths::serialize_32`)]` to transform the graph to a 32-bit representation. This will use
 /// 50% more RAM than serializing without transformation, but the resulting size will be 50% less.
-/// It will panic if the graph has more than 2^32 nodes or edges or values for weight.
+/// It will panic if the graph has more than 2^32 nodes or edges or values for weight. The largest
+/// supported weight is 2^32 - 2, because 2^32 - 1 is a reserved value.
 pub fn serialize_32<S: Serializer>(fg: &FastGraph, s: S) -> Result<S::Ok, S::Error> {
     FastGraph32::new(fg).serialize(s)
 }
-- 
2.43.0


From 4e228ea5168cecf53c993ea620fb0d92135b73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 3/8] fix: report write errors that occur when flushing the
 output of to_file

The last chunk was only written when the BufWriter was dropped, which ignores
errors, so to_file and to_dimacs_file returned Ok for an incomplete file.
---
 src/input_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..ef0c1a8 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +107,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From 86c14842a0a484bbcb5fdbbaeae6da377c4865ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 4/8] fix: reject a node ordering that contains a node more
 than once

Such an ordering is not a permutation of the node ids. It was accepted and
yielded a FastGraph with missing paths.
---
 src/fast_graph_builder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fast_graph_builder.rs b/src/fast_graph_builder.rs
index 19137cc..a0c7a7d 100644
--- a/src/fast_graph_builder.rs
+++ b/src/fast_graph_builder.rs
@@ -76,6 +76,16 @@ impl FastGraphBuilder {
                 "The given order must have as many nodes as the input graph",
             ));
         }
+        let mut found = vec![false; order.len()];
+        for node in order.iter().cloned().filter(|node| *node < order.len()) {
+            if found[node] {
+                return Err(format!(
+                    "The given order contains node {} more than once",
+                    node
+                ));
+            }
+            found[node] = true;
+        }
         let mut builder = FastGraphBuilder::new(input_graph);
         builder.run_contraction_with_order(input_graph, order, params);
         Ok(builder.fast_graph)
-- 
2.43.0


From bdeae62629e6a96e1197d9dee475a3f6483c526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 5/8] fix: keep the number of nodes stated in a DIMACS file

The graph read from a file whose last nodes have no arcs had fewer nodes than
the problem line states, so that queries for these nodes panicked.
---
 src/input_graph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index ef0c1a8..4f325a4 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -315,6 +315,8 @@ impl InputGraph {
             "Not enough arc lines: {}, expected: {}",
             curr_edges, edges
         );
+        // there can be nodes without any arcs
+        g.num_nodes = nodes;
         g.freeze();
         g
     }
-- 
2.43.0


From d4959e0e6491683bf141d1acc49b638f913fadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 6/8] fix: unpack nested shortcuts without recursion

With a node ordering that leads to deeply nested shortcuts (e.g. contracting
a long road from one end to the other) calc_path ran out of stack memory,
which aborts the process.
---
 src/path_calculator.rs | 90 ++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 20674a8..e29a5e0 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -273,70 +273,38 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse)
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse)
+    }
+
+    // this is not done recursively, because depending on the node ordering the shortcuts can be
+    // nested so deeply that we would run out of stack memory
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        fwd: bool,
+        reverse: bool,
+    ) {
+        let mut stack = vec![(edge_id, fwd)];
+        while let Some((edge_id, fwd)) = stack.pop() {
+            let edge = if fwd {
+                &graph.edges_fwd[edge_id]
+            } else {
+                &graph.edges_bwd[edge_id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if fwd { edge.base_node } else { edge.adj_node });
+            } else if reverse {
+                stack.push((edge.replaced_in_edge, false));
+                stack.push((edge.replaced_out_edge, true));
+            } else {
+                stack.push((edge.replaced_out_edge, true));
+                stack.push((edge.replaced_in_edge, false));
+            }
         }
     }
 
-- 
2.43.0


From e44421335e4d409c457611b442fb8502b8eb84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 7/8] hook: let verification skip a calculator's query counter
 ahead (cfg fast_paths_verif)

---
 src/path_calculator.rs | 9 +++++++++
 src/valid_flags.rs     | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index e29a5e0..1b57b61 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -349,6 +349,15 @@ impl PathCalculator {
     }
 }
 
+/// Only for verification: pretends that this calculator has already been used for many queries.
+#[cfg(fast_paths_verif)]
+impl PathCalculator {
+    pub fn verif_skip_to_generation(&mut self, generation: u32) {
+        self.valid_flags_fwd.verif_skip_to_generation(generation);
+        self.valid_flags_bwd.verif_skip_to_generation(generation);
+    }
+}
+
 struct Data {
     settled: bool,
     weight: Weight,
diff --git a/src/valid_flags.rs b/src/valid_flags.rs
index 1bb9fc6..642300e 100644
--- a/src/valid_flags.rs
+++ b/src/valid_flags.rs
@@ -54,6 +54,15 @@ impl ValidFlags {
     }
 }
 
+/// Only for verification: the same state as after many calls of `invalidate_all()`.
+#[cfg(fast_paths_verif)]
+impl ValidFlags {
+    pub fn verif_skip_to_generation(&mut self, generation: u32) {
+        assert!(self.valid_flag <= generation);
+        self.valid_flag = generation;
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::valid_flags::ValidFlags;
-- 
2.43.0


From 34d3e9077fcbf82b0c37c4b9511e5723ab163d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 8/8] fix: refuse the reserved node id instead of wrapping
 around the number of nodes

---
 src/input_graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index 4f325a4..09a39ca 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -29,8 +29,8 @@ use rand::Rng;
 
 use serde::{Deserialize, Serialize};
 
-use crate::constants::NodeId;
 use crate::constants::Weight;
+use crate::constants::{NodeId, INVALID_NODE};
 
 #[derive(Serialize, Deserialize, Clone)]
 pub struct InputGraph {
@@ -201,6 +201,10 @@ impl InputGraph {
             );
             return 0;
         }
+        if from == INVALID_NODE || to == INVALID_NODE {
+            // otherwise the number of nodes would overflow
+            panic!("Invalid node id: {}", INVALID_NODE);
+        }
         self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
         self.edges.push(Edge::new(from, to, weight));
         if bidir {
-- 
2.43.0

