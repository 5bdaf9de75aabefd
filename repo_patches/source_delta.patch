From 3a1d9568598e978e90254ff01a1618b8ac8c1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 01/16] fix: prune exact solvers with the MST weight instead of
 twice the MST weight

directed_edge_weight() counts every tree edge twice, which is no lower bound:
v5, v6, the threaded and the MPI solvers pruned optimal tours.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From e1d6ab824f0e76a8a72eee135a5828a97480563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 02/16] fix: make the nearest neighbour bound of the fourth
 exact solver a lower bound

Only neighbours with a higher index were considered and the way back to the
start was ignored, so the bound could exceed the best completion.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..608ca1d 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -325,10 +325,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
-            // Also we just connect within
-            if subtour.contains(&j) {
+            // Also we just connect within, or back to the start of the tour
+            if j == i || (subtour.contains(&j) && j != subtour[0]) {
                 continue;
             }
 
-- 
2.43.0


From 11e05d66e93dd7fb0c34ad2a9eb3d20349886ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 03/16] fix: evaluate the identity permutation in the two naive
 exact solvers

The enumeration starts after the identity; with one or two cities nothing was
evaluated at all and the cost was infinite.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 608ca1d..b35f780 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,7 +51,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation[1..]) {
-- 
2.43.0


From 352021b30f993a94cef86a095b3f02d03d3686b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 04/16] fix: restore the partial tour cost instead of
 subtracting the last edge

Adding and subtracting a large distance loses the small ones, so with distances
of very different magnitude wrong costs were compared and reported.
---
 src/solvers/exact.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index b35f780..c403b98 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -132,13 +132,14 @@ fn _second_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let previous_cost = current_cost;
         current_cost += cost_last_edge;
 
         // rec call
         _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
 
         // remove
-        current_cost -= cost_last_edge;
+        current_cost = previous_cost;
         current_prefix.pop();
     }
 }
@@ -203,6 +204,7 @@ fn _third_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let previous_cost = current_cost;
         current_cost += cost_last_edge;
 
         // HERE IS THE BIG DIFFERENCE TO [`_second_improved_solver_rec`]!
@@ -211,7 +213,7 @@ fn _third_improved_solver_rec<T>(
         }
         // This was it. This is the pruning
 
-        current_cost -= cost_last_edge;
+        current_cost = previous_cost;
         current_prefix.pop();
     }
 }
@@ -293,6 +295,7 @@ fn _fourth_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let previous_cost = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -303,7 +306,7 @@ fn _fourth_improved_solver_rec<T>(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = previous_cost;
         current_prefix.pop();
     }
 }
@@ -404,6 +407,7 @@ fn _fifth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let previous_cost = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -416,7 +420,7 @@ fn _fifth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = previous_cost;
         current_prefix.pop();
     }
 }
@@ -502,6 +506,7 @@ fn _sixth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let previous_cost = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -526,7 +531,7 @@ fn _sixth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = previous_cost;
         current_prefix.pop();
     }
 }
@@ -1015,6 +1020,7 @@ fn _mpi_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let previous_cost = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -1040,7 +1046,7 @@ fn _mpi_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = previous_cost;
         current_prefix.pop();
     }
 }
-- 
2.43.0


From 15cec8212f92ebd063f5abfa7d70a3790d8e8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 05/16] fix: solve sequentially if a prefix is longer than the
 tour

With two cities and one thread the threaded solver found no tour at all.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index c403b98..92d9714 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -651,8 +651,8 @@ fn threaded_solver_generic(
             .into(),
     };
 
-    // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // if (number of threads >= n) we do seq, also if the prefix would be longer than the tour
+    if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {
         return fifth_improved_solver(graph_matrix);
     }
 
-- 
2.43.0


From 9bd992dda0cc047061b9354c1d49493dca96fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 06/16] fix: keep the cheapest connection in the priority queue
 version of prim

push_increase returns the given priority if it did not increase, so the
remembered neighbour was always overwritten and the tree had wrong edges.
---
 src/mst.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..c54c0df 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -240,10 +240,12 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             if self.used[to] {
                 continue;
             }
-            let Reverse(OrderedFloat(old_cost)) = self.cost_queue
-            .push_increase(to, Reverse(OrderedFloat(cost)))
+            let &Reverse(OrderedFloat(old_cost)) = self.cost_queue
+            .get_priority(&to)
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            if cost < old_cost {
+                self.cost_queue
+                    .change_priority(&to, Reverse(OrderedFloat(cost)));
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From aa91d51222f0d3ef5b33f8ab8aa3c55679b8e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 07/16] fix: keep the matching perfect if the crossing pairing
 is the best one

The vertex v2 was matched twice and v3 not at all.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 065248b0b58dfbf368e2ca5abc6d98c6092e9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 08/16] fix: finite 1-tree lower bound for two cities

The special vertex has only one neighbour, the second edge was infinitely long
and the lower bound exceeded the optimum.
---
 src/one_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..61f5223 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -60,6 +60,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    // with two vertices, every tour takes the only edge twice
+    if snd_min_edg.cost == f64::INFINITY {
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
     mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
     mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
-- 
2.43.0


From f3c151f04b0625670eda26c7e9243c766486d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 09/16] fix: reject self loops and edges to missing vertices

Only the degree was checked, so a loop could stand in for a missing edge and an
edge to a vertex that does not exist was only found by an index out of bounds.
---
 src/preconditions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..76b6451 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,10 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter().enumerate().all(|(i, v)| {
+        // every edge has to lead to another, existing vertex
+        v.degree() == n - 1 && v.iter().all(|edge| edge.to != i && edge.to < n)
+    })
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
-- 
2.43.0


From 7985e120e53bed2e2d6af8e6c9cacc8fe137bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 10/16] fix: distance zero from every city to itself in
 VecMatrix::from(Graph)

As in NAMatrix and from_dim; an infinite diagonal is never metric.
---
 src/datastructures/vecmatrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/vecmatrix.rs b/src/datastructures/vecmatrix.rs
index b114e6a..7e83b40 100644
--- a/src/datastructures/vecmatrix.rs
+++ b/src/datastructures/vecmatrix.rs
@@ -9,7 +9,7 @@ pub struct VecMatrix(Vec<Vec<f64>>);
 impl From<Graph> for VecMatrix {
     fn from(graph: Graph) -> Self {
         let n: usize = graph.num_vertices();
-        let mut matrix = vec![vec![f64::INFINITY; n]; n];
+        let mut matrix = VecMatrix::from_dim(n);
         for i in 0..n {
             let vi = &graph[i];
             for edge in vi.iter() {
@@ -18,7 +18,7 @@ impl From<Graph> for VecMatrix {
                 matrix[j][i] = edge.cost;
             }
         }
-        matrix.into()
+        matrix
     }
 }
 
-- 
2.43.0


From 553a289e63dc75a518c3411da9779be79cda7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 11/16] fix: cover every prefix when splitting the search space
 into chunks

The exclusive maximum of a chunk was its last value, the remainder of the
division belonged to no chunk, and the consumers skipped the first value.
With many MPI processes no tour at all was left.
---
 src/solvers/exact.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 92d9714..d1ca02a 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -568,6 +568,8 @@ pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
 
 /// Splits the `basis`-ary space from 0...0 to (basis-1)..(basis-1) into `n` chunks of `number_digits` digits.
 /// Returns the minimum and maximum (exclusive) values for the `k`-th chunk.
+/// For the last chunk, the first digit of the maximum is `basis`, as there is no larger value.
+/// If there are more chunks than values, some chunks are empty (minimum == maximum).
 pub fn split_up_b_ary_number_into_n_chunks(
     number_digits: usize,
     basis: usize,
@@ -575,11 +577,9 @@ pub fn split_up_b_ary_number_into_n_chunks(
     k: usize,
 ) -> (Vec<usize>, Vec<usize>) {
     let total_values = basis.pow(number_digits as u32);
-    assert!(total_values > n);
-    let chunk_size = total_values / n;
 
-    let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    let min_value = k * total_values / n;
+    let max_value = (k + 1) * total_values / n;
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
     let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@@ -592,10 +592,11 @@ fn convert_to_b_ary_digits(value: usize, basis: usize, number_digits: usize) ->
     let mut digits = Vec::with_capacity(number_digits);
     let mut remainder = value;
 
-    for _ in 0..number_digits {
+    for _ in 1..number_digits {
         digits.push(remainder % basis);
         remainder /= basis;
     }
+    digits.push(remainder);
 
     digits.reverse();
     digits
@@ -677,11 +678,13 @@ fn threaded_solver_generic(
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
+                let mut prefix = Some(min_digits.clone());
+                while let Some(next_value) = prefix {
                     // early return if we have finished our chunk
                     if next_value == max_digits {
                         break;
                     }
+                    prefix = get_next_value(&mut min_digits, graph_matrix.dim());
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -904,11 +907,13 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
+    let mut prefix = Some(min_digits.clone());
+    while let Some(next_value) = prefix {
         // early return if we have finished our chunk
         if next_value == max_digits {
             break;
         }
+        prefix = get_next_value(&mut min_digits, graph_matrix.dim());
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From 67d52ccd85b1257d7f9468ea59cf016ac76d1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 12/16] fix: let the MPI exact solvers handle a single process
 and tiny instances

Without workers no tour was found; instances with fewer cities than a prefix
made the workers panic, so that the other processes waited forever.
---
 src/solvers/exact.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index d1ca02a..fe4a42a 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -800,6 +800,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without workers, or with tours too short for a prefix, every process solves sequentially
+    if world.size() == 1 || graph_matrix.dim() < prefix_length {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1126,6 +1131,12 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without workers, or with tours too short for the first prefix `[1, 2, 3]`,
+    // every process solves sequentially
+    if world.size() == 1 || graph_matrix.dim() < 4 {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
-- 
2.43.0


From f8302ecc780934e8804c58a2be2f3c52e8405cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 13/16] fix: receive the winning tour on MPI processes that
 found no tour

Their buffer was empty, so the broadcast was truncated and they returned no tour.
---
 src/solvers/exact.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index fe4a42a..87fd9e9 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -820,6 +820,9 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     // After the barrier was broken we can broadcast the winner rank and cost
     root.broadcast_into(&mut winner);
 
+    // Processes that found no tour have an empty path, but the broadcast needs the full length
+    winner_path.resize(graph_matrix.dim(), 0);
+
     // Now the winner can broadcast to everyone the path
     let winner_process = world.process_at_rank(winner.1);
     winner_process.broadcast_into(&mut winner_path[..]);
@@ -1152,6 +1155,9 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     // After the barrier was broken we can broadcast the winner rank and cost
     root.broadcast_into(&mut winner);
 
+    // Processes that found no tour have an empty path, but the broadcast needs the full length
+    winner_path.resize(graph_matrix.dim(), 0);
+
     // Now the winner can broadcast to everyone the path
     let winner_process = world.process_at_rank(winner.1);
     winner_process.broadcast_into(&mut winner_path[..]);
-- 
2.43.0


From 8e9450517dc6eb4ddbd7f7111b0913fbd34c21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 14/16] fix: 1-tree lower bound with more MPI processes than
 vertices

The processes without a vertex panicked and the others waited forever.
---
 src/one_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 61f5223..9dddd2a 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -136,7 +136,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // with more processes than vertices, some processes have no special vertex
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
-- 
2.43.0


From 2887dd712f337fa6d8aa29d24ac95a77e3f07b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 15/16] fix: nearest neighbour with more MPI processes than
 nodes

The processes without a start node panicked and the others waited forever.
---
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..8e7cec9 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -147,7 +147,8 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        // with more processes than nodes, some processes have no start node
+        .unwrap_or((f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From 63d52bc80d877d2a21aa60f27cbc33eee1377ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 16/16] fix: compute an MPI approximation together with a lower
 bound

MPI was finalized after the approximation and initialized again for the lower
bound, which panics; and after Christofides only the root process took part.
---
 src/lib.rs                                   | 21 +++++++++++++++-----
 src/solvers/approximate/nearest_neighbour.rs |  7 ++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..b46a8fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,14 @@ fn approx_run(
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file.clone())?;
 
+    // MPI can only be initialized once, so the universe has to outlive the approximation
+    // as well as the lower bound
+    #[cfg(feature = "mpi")]
+    let _universe = match parallelism {
+        Parallelism::MPI => mpi::initialize(),
+        _ => None,
+    };
+
     match algorithm {
         ApproxAlgorithm::Christofides => {
             let graph = (&tsp_instance.graph).into();
@@ -104,8 +112,7 @@ fn approx_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
@@ -122,7 +129,10 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
-                        // non-root process is done here
+                        // non-root process is done here, except for its part of the lower bound
+                        if let Some(lower_bound_algo) = lower_bound {
+                            lower_bound_run(lower_bound_algo, input_file, parallelism)?
+                        }
                         return Ok(());
                     }
                 }
@@ -183,8 +193,9 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    // already initialized, if this is run together with an approximation
+                    let _universe = mpi::initialize();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 8e7cec9..56edeb5 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,9 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // do not drop the Universe until this function has finished!
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
-- 
2.43.0

