From a65a9f8e86e8327ebe4e8985c04f79c11542c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 01/77] fix: depth_first_search fires on_finish_edge for a tree
 edge after its target is explored

The user guide documents on_finish_edge as firing once all descendants of the
edge's target are fully explored (its subtree-size example depends on it); it
fired before the target was even discovered.
---
 include/graph/algorithm/depth_first_search.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/depth_first_search.hpp b/include/graph/algorithm/depth_first_search.hpp
index 2057eeb..372a80f 100644
--- a/include/graph/algorithm/depth_first_search.hpp
+++ b/include/graph/algorithm/depth_first_search.hpp
@@ -138,7 +138,7 @@ using adj_list::find_vertex;
  * - `on_tree_edge(g, edge)`: Called when edge leads to an undiscovered (White) vertex
  * - `on_back_edge(g, edge)`: Called when edge leads to an ancestor (Gray) vertex — indicates cycle
  * - `on_forward_or_cross_edge(g, edge)`: Called when edge leads to a finished (Black) vertex
- * - `on_finish_edge(g, edge)`: Called after an edge has been fully classified
+ * - `on_finish_edge(g, edge)`: Called after an edge has been classified and, for a tree edge, its target finished
  * - `on_finish_vertex(g, vertex)`: Called when all edges from a vertex are processed (colored Black)
  * 
  * All callbacks are optional via SFINAE (`has_on_*` concept checks).
@@ -309,12 +309,20 @@ void depth_first_search(G&&                   g,      // graph
         visitor.on_finish_vertex(g, frame.vertex_id);
       }
       S.pop();
+      if (!S.empty()) {
+        // "Return" to the parent: the tree edge that led here, and everything below it, is now explored
+        auto& parent = S.top();
+        if constexpr (has_on_finish_edge<G, Visitor>) {
+          auto&& [tid, tree_uv] = *parent.it;
+          visitor.on_finish_edge(g, tree_uv);
+        }
+        ++parent.it;
+      }
       continue;
     }
 
     // Process next edge from this vertex
     auto&& [vid, uv] = *frame.it; // structured binding extracts target_id and edge
-    ++frame.it;                   // advance iterator before potential push (simulates recursion past this edge)
 
     if constexpr (has_on_examine_edge<G, Visitor>) {
       visitor.on_examine_edge(g, uv);
@@ -325,10 +333,6 @@ void depth_first_search(G&&                   g,      // graph
       if constexpr (has_on_tree_edge<G, Visitor>) {
         visitor.on_tree_edge(g, uv);
       }
-      // Finish this edge before "recursing" into the target vertex
-      if constexpr (has_on_finish_edge<G, Visitor>) {
-        visitor.on_finish_edge(g, uv);
-      }
       // Discover target and push its frame (equivalent to recursive call)
       color[vid] = Color::Gray;
       if constexpr (has_on_discover_vertex<G, Visitor>) {
@@ -346,6 +350,7 @@ void depth_first_search(G&&                   g,      // graph
       if constexpr (has_on_finish_edge<G, Visitor>) {
         visitor.on_finish_edge(g, uv);
       }
+      ++frame.it;
     } else {
       // Forward or cross edge: target is already finished (Black)
       if constexpr (has_on_forward_or_cross_edge<G, Visitor>) {
@@ -354,6 +359,7 @@ void depth_first_search(G&&                   g,      // graph
       if constexpr (has_on_finish_edge<G, Visitor>) {
         visitor.on_finish_edge(g, uv);
       }
+      ++frame.it;
     }
   }
 }
-- 
2.43.0


From a8a1487740fb5744ff267439a34de03c7d64e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 02/77] fix: kosaraju finishing order is a real DFS post-order

Vertices were marked visited when pushed, so the recorded finishing order was not
that of a depth-first search and vertices of different components could be merged
(e.g. 0->1, 0->2, 2->1).
---
 .../graph/algorithm/connected_components.hpp  | 102 ++++++++++--------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..c18659e 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -152,32 +152,36 @@ void kosaraju(G&&        g,        // graph
   // Helper: iterative DFS to compute finish times (post-order)
   // This creates reverse topological ordering for SCC discovery
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
-    stack.push({start, false});
-    visited[start] = true;
-
+    // Each frame keeps its position in the vertex's incidence range, so a vertex
+    // is visited (and finished) exactly as in a recursive DFS
+    using inc_range_t = decltype(views::incidence(g_ref, *find_vertex(g_ref, start)));
+    struct stack_frame {
+      vertex_id_t<G>                       uid;
+      std::ranges::iterator_t<inc_range_t> it;
+      std::ranges::sentinel_t<inc_range_t> end;
+    };
+    std::stack<stack_frame> stack;
+
+    auto enter = [&](const vertex_id_t<G>& uid) {
+      visited[uid] = true;
+      auto inc     = views::incidence(g_ref, *find_vertex(g_ref, uid));
+      stack.push({uid, std::ranges::begin(inc), std::ranges::end(inc)});
+    };
+
+    enter(start);
     while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
-
-      if (children_visited) {
-        // All children have been visited, add to finish order (post-order)
-        // This ensures children finish before parents in topological sort
-        order.push_back(uid);
-      } else {
-        // Mark that we'll process this vertex after its children
-        // Re-push with children_visited=true to record finish time later
-        stack.push({uid, true});
-
-        // Push all unvisited neighbors onto stack
-        // They will be processed (and finish) before this vertex
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            visited[vid] = true;
-            stack.push({vid, false});
-          }
-        }
+      auto& frame = stack.top();
+      if (frame.it == frame.end) {
+        // All children have finished, add to finish order (post-order)
+        order.push_back(frame.uid);
+        stack.pop();
+        continue;
+      }
+      auto&& [tid, uv]         = *frame.it;
+      const vertex_id_t<G> vid = tid;
+      ++frame.it;
+      if (!visited[vid]) {
+        enter(vid);
       }
     }
   };
@@ -281,26 +285,36 @@ void kosaraju(G&&        g,        // bidirectional graph
 
   // First pass: iterative DFS to compute finish times (same as two-graph version)
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack;
-    stack.push({start, false});
-    visited[start] = true;
-
+    // Each frame keeps its position in the vertex's incidence range, so a vertex
+    // is visited (and finished) exactly as in a recursive DFS
+    using inc_range_t = decltype(views::incidence(g_ref, *find_vertex(g_ref, start)));
+    struct stack_frame {
+      vertex_id_t<G>                       uid;
+      std::ranges::iterator_t<inc_range_t> it;
+      std::ranges::sentinel_t<inc_range_t> end;
+    };
+    std::stack<stack_frame> stack;
+
+    auto enter = [&](const vertex_id_t<G>& uid) {
+      visited[uid] = true;
+      auto inc     = views::incidence(g_ref, *find_vertex(g_ref, uid));
+      stack.push({uid, std::ranges::begin(inc), std::ranges::end(inc)});
+    };
+
+    enter(start);
     while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
-
-      if (children_visited) {
-        order.push_back(uid);
-      } else {
-        stack.push({uid, true});
-
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            visited[vid] = true;
-            stack.push({vid, false});
-          }
-        }
+      auto& frame = stack.top();
+      if (frame.it == frame.end) {
+        // All children have finished, add to finish order (post-order)
+        order.push_back(frame.uid);
+        stack.pop();
+        continue;
+      }
+      auto&& [tid, uv]         = *frame.it;
+      const vertex_id_t<G> vid = tid;
+      ++frame.it;
+      if (!visited[vid]) {
+        enter(vid);
       }
     }
   };
-- 
2.43.0


From 5c956588fc8b9d5a25f07da246d56316b2b02c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 03/77] fix: kosaraju's second pass is linear in V+E

It built a DFS view, with a visited flag per vertex, for every component, so a
graph with many components took quadratic time and allocation; documented O(V+E).
---
 .../graph/algorithm/connected_components.hpp  | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index c18659e..946a24f 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -201,17 +201,23 @@ void kosaraju(G&&        g,        // graph
   std::ranges::reverse_view reverse{order};
   for (auto& uid : reverse) {
     if (component[uid] == std::numeric_limits<CT>::max()) {
-      // Use DFS view on transpose to find all vertices in this SCC
+      // Flood the transpose to find all vertices in this SCC
       // In transpose: if u->v in original, v->u in transpose
-      // So we find all vertices that can reach this root in original graph
-      graph::views::vertices_dfs_view<std::remove_reference_t<GT>> dfs(g_t, uid);
-      for (auto&& [v] : dfs) {
-        auto vid = vertex_id(g_t, v);
-        if (component[vid] != std::numeric_limits<CT>::max()) {
-          // Already assigned to SCC, skip this branch
-          dfs.cancel(graph::views::cancel_search::cancel_branch);
-        } else {
-          component[vid] = cid; // Assign to current SCC
+      // So we find all vertices that can reach this root in original graph,
+      // apart from those already assigned to an SCC
+      std::stack<vertex_id_t<G>> dfs_stack;
+      dfs_stack.push(uid);
+      component[uid] = cid; // Assign to current SCC
+
+      while (!dfs_stack.empty()) {
+        auto current = dfs_stack.top();
+        dfs_stack.pop();
+
+        for (auto&& [vid, e] : views::incidence(g_t, *find_vertex(g_t, current))) {
+          if (component[vid] == std::numeric_limits<CT>::max()) {
+            component[vid] = cid;
+            dfs_stack.push(vid);
+          }
         }
       }
       ++cid; // Move to next SCC
-- 
2.43.0


From 56a226c9ca88cd513d04024e4bb0833cda701db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 04/77] fix: kruskal sizes its disjoint sets from every edge's
 ids

The largest vertex id was tracked inside the sort comparator, and only for its
first argument, so with one edge (or an unlucky sort) ids were out of bounds of the
disjoint-set vector. A loop over ids also never ended when the largest id was the
maximum of its type, and inplace_kruskal reported 0 components where kruskal
reports 1 for edges that only mention vertex 0.
---
 include/graph/algorithm/mst.hpp | 66 +++++++++++++--------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..848660c 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,25 +565,21 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
-    }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
-    }
-    return compare(get<2>(i), get<2>(j)); // Compare edge weights
-  };
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& [uid, vid, val] : e_copy) {
+    N = std::max({N, uid, vid});
+  }
+
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  disjoint_vector<VId> subsets(static_cast<size_t>(N) + 1); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < subsets.size(); ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
@@ -591,7 +587,7 @@ auto kruskal(IELR&&    e,      // graph
 
   // Track MST statistics
   EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  size_t num_components = subsets.size(); // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e_copy) {
@@ -708,31 +704,21 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
-    }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
-    }
-    return compare(i.value, j.value); // Compare edge weights
-  };
-  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
-
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e) {
+    N = std::max({N, static_cast<VId>(ed.source_id), static_cast<VId>(ed.target_id)});
   }
 
+  // Sort edges by weight (modifies input!)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
+  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
+
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  disjoint_vector<VId> subsets(static_cast<size_t>(N) + 1); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < subsets.size(); ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
@@ -740,7 +726,7 @@ auto inplace_kruskal(IELR&&    e,      // graph
 
   // Track MST statistics
   EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  size_t num_components = subsets.size(); // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e) {
-- 
2.43.0


From 15ad48c724fc00caa3c8926d32ba7441222900c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 05/77] fix: prim selects the best crossing edge and never
 rewrites vertices in the tree

The heap order was inverted, and edges back into the tree could replace the
predecessor of a finished vertex, so the result was neither minimal nor always a
tree. The total also included weights of vertices outside the seed's component.
---
 include/graph/algorithm/mst.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 848660c..6d6e385 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -926,8 +926,13 @@ auto prim(G&&                   g,           // graph
 
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
-  // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // Priority queue comparator: compare by edge weight (second element of tuple).
+  // std::priority_queue keeps the greatest element on top, so the arguments are swapped
+  // to get the best edge first.
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
+
+  // Vertices that have been added to the tree; their predecessor and weight are final
+  std::vector<bool> in_tree(N, false);
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
@@ -937,11 +942,15 @@ auto prim(G&&                   g,           // graph
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
+    if (in_tree[uid]) {
+      continue; // Superseded entry: uid was added through a better edge
+    }
+    in_tree[uid] = true;
 
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
       // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
@@ -955,8 +964,8 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
+    if (v != static_cast<size_t>(seed) && in_tree[v]) {
+      // Only count vertices in MST
       total_weight += weight[v];
     }
   }
-- 
2.43.0


From c30748c91fdfdcab5f113eebd81f1f08f273007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 06/77] fix: bellman_ford does not relax edges out of unreached
 vertices

The infinite distance was combined with the edge weight like any other, so negative
edges in parts no source reaches lowered distances, overflowed, or were reported as
a negative cycle.
---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..c174856 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -186,6 +186,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   using weight_type   = invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>;
   using return_type   = optional<vertex_id_t<G>>;
 
+  constexpr auto zero     = shortest_path_zero<DistanceValue>();
+  constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
+
   // relaxing the target is the function of reducing the distance from the source to the target
   auto relax_target = [&g, &predecessor, &distances, &compare, &combine] //
         (const edge_t<G>& e, const vertex_id_t<G>& uid, const weight_type& w_e) -> bool {
@@ -193,6 +196,10 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    if (d_u == infinite) {
+      return false; // uid has not been reached: there is no path to extend
+    }
+
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -217,9 +224,6 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     }
   }
 
-  constexpr auto zero     = shortest_path_zero<DistanceValue>();
-  constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
-
   const id_type N = static_cast<id_type>(num_vertices(g));
 
   // Seed the queue with the initial vertice(s)
@@ -260,7 +264,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From 11802c1b52394e76259eacb8035dcbbd3eadf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 07/77] fix: bellman_ford returns a vertex on the negative
 cycle it detected

The returned vertex was only known to be reachable from the cycle; when it was not on
it, find_negative_cycle never terminated.
---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index c174856..33ef01b 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -271,7 +271,14 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
         if constexpr (has_on_edge_not_minimized<G, Visitor>) {
           visitor.on_edge_not_minimized(g, uv);
         }
-        return return_type(uid);
+        id_type cycle_vertex_id = uid;
+        if constexpr (!is_same_v<Predecessors, _null_range_type>) {
+          // uid may only be reachable from the cycle. Following predecessors num_vertices times ends on it.
+          for (id_type k = 0; k < N; ++k) {
+            cycle_vertex_id = static_cast<id_type>(predecessor[cycle_vertex_id]);
+          }
+        }
+        return return_type(cycle_vertex_id);
       } else {
         if constexpr (has_on_edge_minimized<G, Visitor>) {
           visitor.on_edge_minimized(g, uv);
-- 
2.43.0


From 7119ffc4fbc0c63533ca8efb75d9fbc19daf45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 08/77] fix: dijkstra's queue orders entries by the distance
 they were pushed with

The heap compared through the mutable distance array, so improving a distance
invalidated the heap, and superseded entries were examined again, looking at all
out-edges once per improvement: quadratic on graphs documented as O((V+E) log V).
---
 .../algorithm/dijkstra_shortest_paths.hpp     | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index ede2b58..b781433 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -188,10 +188,11 @@ constexpr void dijkstra_shortest_paths(
 
   const id_type N = static_cast<id_type>(num_vertices(g));
 
-  auto qcompare = [&distances](id_type a, id_type b) {
-    return distances[static_cast<size_t>(a)] > distances[static_cast<size_t>(b)];
-  };
-  using Queue = std::priority_queue<id_type, std::vector<id_type>, decltype(qcompare)>;
+  // Entries keep the distance they were pushed with: the order of the heap must not change
+  // when a distance is improved later.
+  using queue_entry = std::pair<distance_type, id_type>;
+  auto qcompare     = [](const queue_entry& a, const queue_entry& b) { return a.first > b.first; };
+  using Queue       = std::priority_queue<queue_entry, std::vector<queue_entry>, decltype(qcompare)>;
   Queue queue(qcompare);
 
   // (The optimizer removes this loop if on_initialize_vertex() is empty.)
@@ -210,7 +211,7 @@ constexpr void dijkstra_shortest_paths(
     if (source >= N || source < 0) {
       throw std::out_of_range(std::format("dijkstra_shortest_paths: source vertex id '{}' is out of range", source));
     }
-    queue.push(source);
+    queue.push({zero, static_cast<id_type>(source)});
     distances[static_cast<size_t>(source)] = zero; // mark source as discovered
     if constexpr (has_on_discover_vertex<G, Visitor>) {
       visitor.on_discover_vertex(g, *find_vertex(g, source));
@@ -221,8 +222,11 @@ constexpr void dijkstra_shortest_paths(
 
   // Main loop to process the queue
   while (!queue.empty()) {
-    const id_type uid = queue.top();
+    const auto [entry_distance, uid] = queue.top();
     queue.pop();
+    if (entry_distance != distances[static_cast<size_t>(uid)]) {
+      continue; // Superseded entry: uid was re-enqueued with a shorter distance
+    }
     if constexpr (has_on_examine_vertex<G, Visitor>) {
       visitor.on_examine_vertex(g, *find_vertex(g, uid));
     } else if constexpr (has_on_examine_vertex_id<G, Visitor>) {
@@ -257,7 +261,7 @@ constexpr void dijkstra_shortest_paths(
           } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
             visitor.on_discover_vertex(g, vid);
           }
-          queue.push(vid);
+          queue.push({distances[static_cast<size_t>(vid)], vid});
         } else {
           // This is an indicator of a bug in the algorithm and should be investigated.
           throw std::logic_error(
@@ -269,7 +273,7 @@ constexpr void dijkstra_shortest_paths(
           if constexpr (has_on_edge_relaxed<G, Visitor>) {
             visitor.on_edge_relaxed(g, uv);
           }
-          queue.push(vid); // re-enqueue vid to re-evaluate its neighbors with a shorter path
+          queue.push({distances[static_cast<size_t>(vid)], vid}); // re-enqueue vid to re-evaluate its neighbors with a shorter path
         } else {
           if constexpr (has_on_edge_not_relaxed<G, Visitor>) {
             visitor.on_edge_not_relaxed(g, uv);
@@ -278,9 +282,6 @@ constexpr void dijkstra_shortest_paths(
       }
     }
 
-    // Note: while we *think* we're done with this vertex, we may not be. If the graph is unbalanced
-    // and another path to this vertex has a lower accumulated weight, we'll process it again.
-    // A consequence is that examine_vertex could be called twice (or more) on the same vertex.
     if constexpr (has_on_finish_vertex<G, Visitor>) {
       visitor.on_finish_vertex(g, *find_vertex(g, uid));
     } else if constexpr (has_on_finish_vertex_id<G, Visitor>) {
-- 
2.43.0


From 9aa273fe1e6315aa7d57ab1b642ca3de2ce4023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 09/77] fix: maximal_independent_set excludes every vertex with
 a self-loop

Only the seed was checked for a self-loop; the documentation excludes all such vertices.
---
 include/graph/algorithm/mis.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..c2b17d0 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -184,6 +184,18 @@ size_t maximal_independent_set(G&&                      g,       // graph
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
     if (!removed_vertices[uid]) {
+      // A vertex with a self-loop cannot be in any independent set
+      bool has_self_loop = false;
+      for (auto uv : edges(g, u)) {
+        if (target_id(g, uv) == uid) {
+          has_self_loop = true;
+          break;
+        }
+      }
+      if (has_self_loop) {
+        continue;
+      }
+
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From 1a82919e7d7c25b6f8e6e880216029dc0b3a48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 10/77] fix: articulation_points walks each edge range once and
 does not use a popped frame

The frame held an edge index and re-walked the range from its start for every edge
(quadratic in the degree; documented O(V+E)), and the vertex id was read through a
reference into the stack frame just popped (use after free at a block boundary).
---
 .../graph/algorithm/articulation_points.hpp   | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..cff865c 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -144,18 +144,25 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
   size_t timer = 0;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
-  // edge_index tracks how far we've iterated through edges(g, uid)
+  // Frame for iterative DFS: (vertex_id, edge iterators, parent_edge_skipped)
+  // it tracks how far we've iterated through the edges of uid
   // parent_edge_skipped ensures only the first reverse edge to the DFS parent
   // is treated as the tree edge; subsequent parallel edges update low-link.
+  using edge_range_t = decltype(views::incidence(g, std::declval<const vid_t&>()));
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t                                 uid;
+    std::ranges::iterator_t<edge_range_t> it;
+    std::ranges::sentinel_t<edge_range_t> end;
+    bool                                  parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](const vid_t& id) {
+    auto edge_range = views::incidence(g, id);
+    stk.push({id, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Outer loop: handle disconnected graphs
   for (auto [start] : views::basic_vertexlist(g)) {
     if (disc[start] != UNVISITED) {
@@ -163,26 +170,17 @@ void articulation_points(G&& g, Iter cut_vertices) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      // Collect edges into a temporary to allow indexed access
-      // We advance through edges one at a time using edge_idx
-      auto edge_range = views::incidence(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto&       frame = stk.top();
+      const vid_t uid   = frame.uid;
 
-      if (it == it_end) {
+      if (frame.it == frame.end) {
         // All edges processed — backtrack
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
           if (low[uid] < low[par_uid]) {
             low[par_uid] = low[uid];
@@ -200,8 +198,8 @@ void articulation_points(G&& g, Iter cut_vertices) {
         continue;
       }
 
-      vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      const vid_t vid = (*frame.it).target_id;
+      ++frame.it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -213,10 +211,10 @@ void articulation_points(G&& g, Iter cut_vertices) {
         parent[vid] = uid;
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
-        stk.push({vid, 0, false});
-      } else if (vid == parent[uid] && !parent_skipped) {
+        push_frame(vid);
+      } else if (vid == parent[uid] && !frame.parent_edge_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
-        parent_skipped = true;
+        frame.parent_edge_skipped = true;
       } else {
         // Back edge (or additional parallel edge to parent): update low-link
         if (disc[vid] < low[uid]) {
-- 
2.43.0


From 296d483e864e7fd2df05e1a4818a5e2ee53b368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 11/77] fix: biconnected_components walks each edge range once

The frame held an edge index and re-walked the range from its start for every edge,
which is quadratic in the degree; documented O(V+E).
---
 .../algorithm/biconnected_components.hpp      | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..09f0d4a 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -156,15 +156,22 @@ void biconnected_components(G&& g, OuterContainer& components) {
   using edge_pair = std::pair<vid_t, vid_t>;
   std::stack<edge_pair> edge_stk;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
+  // Frame for iterative DFS: (vertex_id, edge iterators, parent_edge_skipped)
+  using edge_range_t = decltype(edges(g, std::declval<const vid_t&>()));
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t                                 uid;
+    std::ranges::iterator_t<edge_range_t> it;
+    std::ranges::sentinel_t<edge_range_t> end;
+    bool                                  parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](const vid_t& id) {
+    auto edge_range = edges(g, id);
+    stk.push({id, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Helper: pop edges from edge_stk until (u, v) is popped (inclusive).
   // Collect unique vertex IDs and push_back as a new component.
   auto flush_component = [&](vid_t u, vid_t v) {
@@ -199,25 +206,18 @@ void biconnected_components(G&& g, OuterContainer& components) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      auto edge_range = edges(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto&       frame = stk.top();
+      const vid_t uid   = frame.uid;
 
-      if (it == it_end) {
+      if (frame.it == frame.end) {
         // All edges processed — backtrack
-        vid_t backtrack_uid = uid;
+        const vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
           if (low[backtrack_uid] < low[par_uid]) {
             low[par_uid] = low[backtrack_uid];
@@ -233,8 +233,8 @@ void biconnected_components(G&& g, OuterContainer& components) {
         continue;
       }
 
-      vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      const vid_t vid = target_id(g, *frame.it);
+      ++frame.it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -246,10 +246,10 @@ void biconnected_components(G&& g, OuterContainer& components) {
         parent[vid] = uid;
         disc[vid] = low[vid] = timer++;
         edge_stk.push({uid, vid});
-        stk.push({vid, 0, false});
-      } else if (vid == parent[uid] && !parent_skipped) {
+        push_frame(vid);
+      } else if (vid == parent[uid] && !frame.parent_edge_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
-        parent_skipped = true;
+        frame.parent_edge_skipped = true;
       } else {
         // Back edge (or additional parallel edge to parent): update low-link
         // Only push back edges going to an ancestor (disc[vid] < disc[uid])
-- 
2.43.0


From 43e01e502d3803abd4ff4e1e8a4d854e481d981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 12/77] fix: biconnected_components reports vertices whose only
 edges are self-loops

They appeared in no component; every vertex is documented to be in at least one.
---
 include/graph/algorithm/biconnected_components.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 09f0d4a..9969c44 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -196,9 +196,15 @@ void biconnected_components(G&& g, OuterContainer& components) {
       continue;
     }
 
-    // Check for isolated vertex (no edges)
-    auto start_edges = edges(g, sv);
-    if (std::ranges::begin(start_edges) == std::ranges::end(start_edges)) {
+    // Check for isolated vertex (no edges other than self-loops)
+    bool isolated = true;
+    for (auto&& uv : edges(g, sv)) {
+      if (target_id(g, uv) != start) {
+        isolated = false;
+        break;
+      }
+    }
+    if (isolated) {
       // Isolated vertex — trivial biconnected component
       components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
       disc[start] = timer++; // mark as visited
-- 
2.43.0


From 1b0bce60f193d0182a7dda41f5605cdc98c88661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 13/77] fix: afforest accepts a graph without vertices

Sampling an empty component array read out of bounds.
---
 include/graph/algorithm/connected_components.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 946a24f..9bebe45 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -740,6 +740,10 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // No vertices: nothing to link or sample
+  }
+
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -847,6 +851,10 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // No vertices: nothing to link or sample
+  }
+
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From 80e5ab6897685a0c1362348eb2ed1bdd70285680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 14/77] fix: transpose_view's num_edges(g, v) counts the edges
 of the transpose

It returned the number of outgoing edges in the underlying graph, so it disagreed
with degree() and edges() of the transpose.
---
 include/graph/views/transpose.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..2adc0c3 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -205,12 +205,13 @@ public:
   }
 
   // ===========================================================================
-  // num_edges — forwarded
+  // num_edges — swapped for a vertex, forwarded for the graph
   // ===========================================================================
 
+  /// num_edges(transpose, v) → in_degree(underlying, v)
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From ecd8af813beab904f687467221e13ec1eef4bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:08 +0000
Subject: [PATCH 15/77] fix: topological sort views use an explicit stack

The recursive DFS overflowed the call stack on long paths.
---
 include/graph/views/topological_sort.hpp | 56 +++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/include/graph/views/topological_sort.hpp b/include/graph/views/topological_sort.hpp
index ff743de..2c3c2a7 100644
--- a/include/graph/views/topological_sort.hpp
+++ b/include/graph/views/topological_sort.hpp
@@ -232,17 +232,43 @@ namespace topo_detail {
     [[nodiscard]] const std::optional<vertex_type>& cycle_vertex() const noexcept { return cycle_vertex_; }
 
   private:
-    // Recursive DFS visit for topological sort
+    // Iterative DFS visit for topological sort (an explicit stack, so that the
+    // length of a path in the graph is not limited by the call stack)
     void dfs_visit(G& g, vertex_type v, bool detect_cycles) {
-      auto vid = adj_list::vertex_id(g, v);
-      visited_.mark_visited(vid);
-
-      if (detect_cycles) {
-        rec_stack_[vid] = true;
-      }
+      using edge_iterator_type = std::ranges::iterator_t<typename Accessor::template edge_range_t<G>>;
+      struct frame_type {
+        vertex_type        vertex;
+        edge_iterator_type edge_iter;
+        edge_iterator_type edge_end;
+      };
+      std::stack<frame_type> frames;
+
+      auto enter = [&](const vertex_type& u) {
+        auto uid = adj_list::vertex_id(g, u);
+        visited_.mark_visited(uid);
+        if (detect_cycles) {
+          rec_stack_[uid] = true;
+        }
+        auto edge_range = Accessor{}.edges(g, u);
+        frames.push({u, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+      };
+
+      enter(v);
+      while (!frames.empty()) {
+        auto& frame = frames.top();
+
+        if (frame.edge_iter == frame.edge_end) {
+          // All children visited
+          if (detect_cycles) {
+            rec_stack_[adj_list::vertex_id(g, frame.vertex)] = false;
+          }
+          post_order_.push_back(frame.vertex);
+          frames.pop();
+          continue;
+        }
 
-      // Visit all children
-      for (auto edge : Accessor{}.edges(g, v)) {
+        auto edge = *frame.edge_iter;
+        ++frame.edge_iter;
         auto target_v   = Accessor{}.neighbor(g, edge);
         auto target_vid = adj_list::vertex_id(g, target_v);
 
@@ -253,19 +279,9 @@ namespace topo_detail {
         }
 
         if (!visited_.is_visited(target_vid)) {
-          dfs_visit(g, target_v, detect_cycles);
-          if (cycle_vertex_) {
-            return; // Propagate early exit
-          }
+          enter(target_v);
         }
       }
-
-      if (detect_cycles) {
-        rec_stack_[vid] = false;
-      }
-
-      // Add to post-order after all children visited
-      post_order_.push_back(v);
     }
   };
 
-- 
2.43.0


From 9da68058d59549a928c2395a7c4389234e403385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 16/77] fix: source(g, uv) of an incoming edge is the edge's
 source vertex

It returned the vertex owning the incoming edge, which is its target, in
contradiction to source_id(g, uv); target() on a transpose_view, and with it every
search view over a transpose, was wrong as a result.
---
 include/graph/adj_list/detail/graph_cpo.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..a80bba6 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3186,8 +3186,10 @@ namespace _cpo_impls {
     };
 
     // Check if edge descriptor has source() member
+    // Not for in-edge descriptors: their source() is the vertex that owns the in-edge, i.e. its target
     template <typename E>
-    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
+    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> &&
+                              !is_in_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
       { uv.source() };
     };
 
-- 
2.43.0


From 34b8f4c41efee673a02cf03cfd61e79dcaa6d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 17/77] fix: compressed_graph ends its last partition at the
 number of vertices

The terminating entry of the partition table was the size of row_index_, which has
one extra row, so the last partition listed a vertex that does not exist.
---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..05cd7ae 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -911,13 +911,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
+      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(size())) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+                                      size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
-- 
2.43.0


From 16d7691132af6f57cd178afac9499b3f4842df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 18/77] fix: compressed_graph vertices added after edges have
 an empty edge range

load_vertices() appended rows starting at edge 0, so the first new vertex seemed to
own all edges from the terminating row on and later ones had a start beyond their end.
---
 include/graph/container/compressed_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 05cd7ae..4db0804 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -650,7 +650,7 @@ public: // Operations
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
     } else if (vertex_count > size()) {
       // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
-- 
2.43.0


From f26b8eb9680da90013914aeb3c8c71d4aa43e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 19/77] fix: compressed_graph load_vertices of an empty range
 adds no vertex

---
 include/graph/container/compressed_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 4db0804..29edf56 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -643,7 +643,8 @@ public: // Operations
     }
 
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
+    const size_type id_count = std::ranges::empty(vrng) ? 0 : static_cast<size_type>(max_id) + 1;
+    vertex_count             = max({vertex_count, id_count, size()});
 
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
-- 
2.43.0


From 401237787b41de0a6348b38655a18944ed0ad6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 20/77] fix: compressed_graph edge_value does not truncate the
 edge index to the vertex id type

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 29edf56..612ba40 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1377,9 +1377,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 881df0531bc67f5f9555f7a63448c75f9eecc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 21/77] fix: compressed_graph load_edges works after
 load_vertices and with an empty range

load_edges() is documented to be callable before or after load_vertices(), but it
asserted on (or, with NDEBUG, corrupted) the rows load_vertices() had made. With an
empty range it ignored vertex_count and terminated the partition table, which the
constructors then terminated again and threw.
---
 include/graph/container/compressed_graph.hpp | 32 +++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 612ba40..cc76af4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -700,12 +700,20 @@ public: // Operations
   template <class ERng, class EProj = identity>
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
-    // Nothing to do?
+    // Vertices may have been loaded already; their (empty) rows are rebuilt below
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
+    // No edges?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > 0) {
+        row_index_.resize(vertex_count + 1, vertex_type{0});
+      }
+      if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+        row_values_base::resize(vertex_count);
       return;
     }
 
@@ -764,12 +772,20 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
-    // Nothing to do?
+    // Vertices may have been loaded already; their (empty) rows are rebuilt below
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
+    // No edges?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > 0) {
+        row_index_.resize(vertex_count + 1, vertex_type{0});
+      }
+      if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+        row_values_base::resize(vertex_count);
       return;
     }
 
-- 
2.43.0


From 6d6f046894d2a5e4e384c5806be33f12c367eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 22/77] fix: compressed_graph has a value for every vertex that
 its edges imply

Vertices without a loaded value (no load_vertices() call, or a single value loaded)
made vertex_value(g,u) read out of bounds.
---
 include/graph/container/compressed_graph.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index cc76af4..d477bc9 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -712,7 +712,7 @@ public: // Operations
       if (vertex_count > 0) {
         row_index_.resize(vertex_count + 1, vertex_type{0});
       }
-      if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+      if (row_values_base::size() < vertex_count)
         row_values_base::resize(vertex_count);
       return;
     }
@@ -760,10 +760,9 @@ public: // Operations
     // add any rows that haven't been added yet, and (+1) terminating row
     row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
-    // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
-    // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
-    // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    // Every vertex has a value: extend the values (if any have been loaded) to all vertices to
+    // remove the possibility of out-of-bounds occuring when getting a value for a row.
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -784,7 +783,7 @@ public: // Operations
       if (vertex_count > 0) {
         row_index_.resize(vertex_count + 1, vertex_type{0});
       }
-      if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+      if (row_values_base::size() < vertex_count)
         row_values_base::resize(vertex_count);
       return;
     }
@@ -850,10 +849,9 @@ public: // Operations
     // add any rows that haven't been added yet, and (+1) terminating row
     row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
-    // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
-    // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
-    // getting a value for a row.
-    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+    // Every vertex has a value: extend the values (if any have been loaded) to all vertices to
+    // remove the possibility of out-of-bounds occuring when getting a value for a row.
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
-- 
2.43.0


From 195c37554c07abf25dc218cc4ee71de3b14422c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 23/77] fix: loading from an lvalue range copies values instead
 of moving them out

load_vertices(VRng&&) and compressed_graph::load_edges(ERng&&) also bind to a
non-const lvalue range; they moved the values out of the caller's elements.
---
 include/graph/container/compressed_graph.hpp  |  6 ++++--
 include/graph/container/container_utility.hpp | 16 ++++++++++++++++
 include/graph/container/dynamic_graph.hpp     |  4 ++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index d477bc9..91eb089 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -231,7 +231,7 @@ public: // Operations
         throw graph_error(std::format("Invalid vertex id {} in vertex data: exceeds allocated size {}", id, size()));
       }
 
-      (*this)[id] = std::move(value);
+      (*this)[static_cast<size_t>(id)] = forward_projected_value<VRng, decltype(projection(vtx))>(value);
     }
   }
 
@@ -346,6 +346,7 @@ public: // Operations
 
   constexpr void clear() noexcept { v_.clear(); }
   constexpr void push_back(const value_type& value) { v_.push_back(value); }
+  constexpr void emplace_back(const value_type& value) { v_.push_back(value); }
   constexpr void emplace_back(value_type&& value) { v_.emplace_back(forward<value_type>(value)); }
 
   constexpr void swap(csr_col_values& other) noexcept { swap(v_, other.v_); }
@@ -750,7 +751,8 @@ public: // Operations
 
       col_index_.push_back(edge_type{static_cast<vertex_id_type>(edge.target_id)});
       if constexpr (!is_void_v<EV>)
-        static_cast<col_values_base&>(*this).emplace_back(move(edge.value));
+        static_cast<col_values_base&>(*this).emplace_back(
+              forward_projected_value<ERng, decltype(eprojection(edge_data))>(edge.value));
       max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));
     }
 
diff --git a/include/graph/container/container_utility.hpp b/include/graph/container/container_utility.hpp
index dfcbf6c..6a0ebf8 100644
--- a/include/graph/container/container_utility.hpp
+++ b/include/graph/container/container_utility.hpp
@@ -134,6 +134,22 @@ constexpr void emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id
   }
 }
 
+// Forward a value that was projected from an element of a range passed as "Rng&& rng". The value is
+// moved when the caller gave up the range (an rvalue that owns its elements) or when the projection
+// returned a new object, and is copied when it still belongs to a range the caller keeps.
+template <class Rng, class ProjectedRef>
+inline constexpr bool keeps_projected_value =
+      std::is_lvalue_reference_v<ProjectedRef> &&
+      (std::is_lvalue_reference_v<Rng> || std::ranges::view<std::remove_cvref_t<Rng>>);
+
+template <class Rng, class ProjectedRef, class T>
+constexpr decltype(auto) forward_projected_value(T& value) noexcept {
+  if constexpr (keeps_projected_value<Rng, ProjectedRef>)
+    return static_cast<const T&>(value);
+  else
+    return static_cast<T&&>(value);
+}
+
 // return a lambda to assign/insert an element in a container
 // assignment applies to random_access containers that have elements pre-allocated
 // insert     applies to other containers that can insert elements (e.g. map, unordered_map, ...)
diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..978f34d 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1196,7 +1196,7 @@ public: // Load operations
           (void)vertices_[id]; // ensure vertex exists
         } else {
           auto&& [id, value]    = vproj(v); //copyable_vertex_t<VId, VV>
-          vertices_[id].value() = move(value);
+          vertices_[id].value() = forward_projected_value<VRng, decltype(vproj(v))>(value);
         }
       }
     } else {
@@ -1223,7 +1223,7 @@ public: // Load operations
             if (k >= vertices_.size()) [[unlikely]]
               throw std::out_of_range("vertex id in load_vertices exceeds current vertex container size");
           }
-          vertices_[k].value() = move(value);
+          vertices_[k].value() = forward_projected_value<VRng, decltype(vproj(v))>(value);
         }
       }
     }
-- 
2.43.0


From e115b06093dfa68f167f6cc23caf20927c602edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 24/77] fix: a dynamic_graph built from an empty initializer
 list has no vertices

---
 include/graph/container/dynamic_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 978f34d..9c6cede 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1085,7 +1085,8 @@ public: // Construction/Destruction/Assignment
       size_t last_id = 0;
       for (auto&& e : il)
         last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));
-      resize_vertices(last_id + 1);
+      if (il.size() > 0)
+        resize_vertices(last_id + 1);
       // canonical order: supply vertex_count to avoid inference pass
       load_edges(il, {}, vertices_.size(), il.size());
     }
-- 
2.43.0


From 07e849db9556c3eb4408b13350c031182df56af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 25/77] fix: a moved-from dynamic_graph has no edges left to
 count

---
 include/graph/container/dynamic_graph.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 9c6cede..f8d59dc 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -927,11 +927,22 @@ public: // types
 public: // Construction/Destruction/Assignment
   constexpr dynamic_graph_base()                          = default;
   constexpr dynamic_graph_base(const dynamic_graph_base&) = default;
-  constexpr dynamic_graph_base(dynamic_graph_base&&)      = default;
+  constexpr dynamic_graph_base(dynamic_graph_base&& rhs) noexcept(std::is_nothrow_move_constructible_v<vertices_type>)
+        : vertices_(std::move(rhs.vertices_))
+        , partition_(std::move(rhs.partition_))
+        , edge_count_(std::exchange(rhs.edge_count_, 0)) {}
   constexpr ~dynamic_graph_base()                         = default;
 
   constexpr dynamic_graph_base& operator=(const dynamic_graph_base&) = default;
-  constexpr dynamic_graph_base& operator=(dynamic_graph_base&&)      = default;
+  constexpr dynamic_graph_base&
+  operator=(dynamic_graph_base&& rhs) noexcept(std::is_nothrow_move_assignable_v<vertices_type>) {
+    if (this != &rhs) {
+      vertices_   = std::move(rhs.vertices_);
+      partition_  = std::move(rhs.partition_);
+      edge_count_ = std::exchange(rhs.edge_count_, 0);
+    }
+    return *this;
+  }
 
   /**
    * @brief Construct an empty graph using the allocator passed.
-- 
2.43.0


From a677be4ba6236dbccd69f71049c313213bfff035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 26/77] fix: undirected_adjacency_list links a self-loop into
 its vertex's list once

---
 .../container/detail/undirected_adjacency_list_impl.hpp  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..cbfe617 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -588,7 +588,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in the vertex's list once
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 template <typename EV,
           typename VV,
@@ -598,7 +599,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in the vertex's list once
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
@@ -609,7 +611,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in the vertex's list once
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
-- 
2.43.0


From 95694dbe93c8765a8e098ca060c402be46068809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 27/77] fix: copying an undirected_adjacency_list keeps edges
 whose source id exceeds the target id

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index cbfe617..cb24080 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1106,15 +1106,15 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   // Downcast to graph_type to access methods
   auto& g = static_cast<graph_type&>(*this);
 
-  // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
+  // Copy edges - iterate through each vertex and copy the edges it is the source of to avoid duplicates
   for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
     const auto& src_vtx = other.vertices_[uid];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: from the list of its source
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From 221373020d9383c34fdd0359a42c27c7baa22c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 28/77] fix: moving an undirected_adjacency_list releases the
 target's edges and empties the source's count

---
 .../container/undirected_adjacency_list.hpp     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..842fd11 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -933,7 +933,11 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {}
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -942,7 +946,16 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // release this graph's edges before their lists are replaced
+      vertices_     = std::move(other.vertices_);
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From 73c1c90e5912b2f553ac40c9e237bfe8509aea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 29/77] fix: undirected_adjacency_list
 erase_edge(edge_iterator) unlinks the edge

---
 .../detail/undirected_adjacency_list_impl.hpp   | 17 +++++++++++++----
 .../container/undirected_adjacency_list.hpp     |  2 ++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index cb24080..dcd248e 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1438,12 +1438,21 @@ template <typename EV,
           typename Alloc>
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
-  edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
+  auto&                g    = static_cast<graph_type&>(*this);
+  edge_type*           uv   = &*pos;
+  vertex_iterator      u    = pos.u_;
+  vertex_edge_iterator next = pos.uv_;
+  ++next;
+
+  uv->unlink(*uv->source(g), *uv->target(g));
+  uv->~edge_type();
   this->edge_alloc_.deallocate(uv, 1);
   --this->edges_size_;
-  return pos;
+
+  // The next vertex's first edge is only known once the edge has been removed from its other list
+  if (next == u->edges_end(g, static_cast<vertex_id_type>(u - this->vertices_.begin())))
+    return edge_iterator(g, ++u);
+  return edge_iterator(g, u, next);
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 842fd11..5c2c490 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -877,6 +877,8 @@ public: // Type Aliases
     graph_type*          g_;
     vertex_iterator      u_;
     vertex_edge_iterator uv_;
+
+    friend base_undirected_adjacency_list; // erase_edge() needs the position
   };
 
   class edge_iterator : public const_edge_iterator {
-- 
2.43.0


From d55bd27390b0a80dbeca004646b72288b90688cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 30/77] fix: undirected_adjacency_list edges() can be called

---
 .../graph/container/undirected_adjacency_list.hpp   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 5c2c490..2e08ea0 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -805,8 +805,8 @@ public: // Type Aliases
   // Edge iterators (nested classes)
   class edge_iterator;       // (defined below)
   class const_edge_iterator; // (defined below)
-  using edge_range       = ranges::subrange<edge_iterator, edge_iterator, ranges::subrange_kind::sized>;
-  using const_edge_range = ranges::subrange<const_edge_iterator, const_edge_iterator, ranges::subrange_kind::sized>;
+  using edge_range       = ranges::subrange<edge_iterator, edge_iterator, ranges::subrange_kind::unsized>;
+  using const_edge_range = ranges::subrange<const_edge_iterator, const_edge_iterator, ranges::subrange_kind::unsized>;
 
   class const_edge_iterator {
   public:
@@ -1070,10 +1070,13 @@ public:
   /// @brief Get range of all edges.
   /// @note Each undirected edge appears twice in iteration (once from each endpoint).
   /// @complexity O(1) to create range, O(V+E) to iterate.
-  edge_range       edges() { return {edge_iterator(*this, begin()), edge_iterator(*this, end()), this->edges_size_}; }
+  edge_range edges() {
+    auto& g = static_cast<graph_type&>(*this);
+    return {edge_iterator(g, begin()), edge_iterator(g, end())};
+  }
   const_edge_range edges() const {
-    return {const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).begin()),
-            const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
+    const auto& g = static_cast<const graph_type&>(*this);
+    return {const_edge_iterator(g, begin()), const_edge_iterator(g, end())};
   }
 
 public: // Vertex Creation
-- 
2.43.0


From 86e50e5b87bb8ce446ca69ac04558e60d21c7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 31/77] fix: an undirected_adjacency_list built from an empty
 initializer list has no vertices

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index dcd248e..ace876f 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1194,6 +1194,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
+  if (ilist.size() == 0)
+    return;
+
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1222,6 +1225,9 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
+  if (ilist.size() == 0)
+    return;
+
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
-- 
2.43.0


From 671aadc88ab56d46dc577066f7e1bd296f465d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 32/77] fix: define the range constructors of
 undirected_adjacency_list without a graph value

---
 .../detail/undirected_adjacency_list_impl.hpp  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index ace876f..784aeae 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -2023,6 +2023,24 @@ undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adja
       const undirected_adjacency_list& other)
       : base_type(other) {}
 
+// Range constructors
+template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
+template <typename ERng, typename VRng, typename EProj, typename VProj>
+requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
+               std::regular_invocable<EProj, ranges::range_reference_t<ERng>> &&
+               std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
+undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
+      const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const Alloc& alloc)
+      : base_type(erng, vrng, eproj, vproj, alloc) {}
+
+template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
+template <typename ERng, typename EProj>
+requires ranges::forward_range<ERng> && std::regular_invocable<EProj, ranges::range_reference_t<ERng>>
+undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(const ERng&  erng,
+                                                                                           const EProj& eproj,
+                                                                                           const Alloc& alloc)
+      : base_type(erng, vector<copyable_vertex_t<VId, VV>>(), eproj, std::identity(), alloc) {}
+
 // Initializer list constructors
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
-- 
2.43.0


From 1b7d15684a994ac68bfcc4c0c1d3e257e3f3d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 33/77] fix: undirected_adjacency_list create_edge survives an
 edge value that throws

---
 .../detail/undirected_adjacency_list_impl.hpp | 12 +++----
 .../container/undirected_adjacency_list.hpp   | 33 ++++++++++++++-----
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 784aeae..e639b7b 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -488,7 +488,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid)
       : base_value_type(), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -502,7 +502,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -516,7 +516,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -527,7 +527,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi)
       : base_value_type()
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -543,7 +543,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -559,7 +559,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 2e08ea0..92265ae 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -663,13 +663,13 @@ protected:
   ual_edge& operator=(ual_edge&) noexcept  = default;
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&);
 
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&);
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -1158,7 +1158,12 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
+    } catch (...) {
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
@@ -1172,7 +1177,12 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
+    } catch (...) {
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
@@ -1189,7 +1199,12 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, const EV2& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
+    } catch (...) {
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
-- 
2.43.0


From f9a748039ded2f14c8484d809fb64d3c57c1f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 34/77] fix: undirected_adjacency_list constructors release
 their edges when they throw

---
 .../container/detail/undirected_adjacency_list_impl.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index e639b7b..ee97cac 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1087,7 +1087,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const base_undirected_adjacency_list& other) {
+      const base_undirected_adjacency_list& other)
+      : base_undirected_adjacency_list() { // delegate: the destructor releases the edges if an exception is thrown
   // Copy base class members
   edge_alloc_ = other.edge_alloc_;
 
@@ -1138,7 +1139,7 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
                std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) {
   // Handle empty case - no vertices or edges to create
   if (vrng.empty() && ranges::empty(erng)) {
     return;
@@ -1193,7 +1194,7 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) {
   if (ilist.size() == 0)
     return;
 
@@ -1224,7 +1225,7 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) {
   if (ilist.size() == 0)
     return;
 
-- 
2.43.0


From aa1c62aea17672b4048eecffe9a6da8e27576ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 35/77] fix: an incoming edge of an undirected_adjacency_list
 comes from the vertex at its other end

---
 include/graph/container/undirected_adjacency_list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 92265ae..19421b0 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1316,6 +1316,8 @@ constexpr VId target_id(const undirected_adjacency_list<EV, VV, GV, VId, VContai
 /// Uses edge_descriptor.source_id() which returns the source from iteration context,
 /// NOT ual_edge.list_owner_id() which returns the storage location.
 /// See ual_edge::list_owner_id()/list_target_id() documentation for the distinction.
+///
+/// An incoming edge descriptor comes from the vertex at the other end, as it does in directed graphs.
 template <typename EV,
           typename VV,
           typename GV,
@@ -1326,7 +1328,10 @@ template <typename EV,
 requires edge_descriptor_type<E>
 constexpr VId source_id([[maybe_unused]] const undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g,
                         const E& e) noexcept {
-  return static_cast<VId>(e.source_id());
+  if constexpr (adj_list::is_in_edge_descriptor_v<E>)
+    return e.value()->other_vertex_id(g, static_cast<VId>(e.source_id()));
+  else
+    return static_cast<VId>(e.source_id());
 }
 
 /// edge_value(g, edge_descriptor) - get edge value from edge descriptor
-- 
2.43.0


From 309fb4e963184f397e1ec42dbce73d6e0c9946af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 36/77] fix: prim gives vertices the seed does not reach the
 initial distance as weight

---
 include/graph/algorithm/mst.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 6d6e385..4d689b9 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -964,7 +964,9 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && in_tree[v]) {
+    if (!in_tree[v]) {
+      weight[v] = init_dist; // Unreachable from seed
+    } else if (v != static_cast<size_t>(seed)) {
       // Only count vertices in MST
       total_weight += weight[v];
     }
-- 
2.43.0


From 9d4db4089618c31f907384f2b7579659683cb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 37/77] fix: compressed_graph works with the vertex id forms of
 edges, num_edges and the algorithms using them

---
 include/graph/container/compressed_graph.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 91eb089..95bd7e1 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1239,7 +1239,7 @@ public: // Friend functions
    * @note This is a lightweight view with minimal overhead
    * @note Returns empty view if vertex descriptor is out of bounds
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto edges(G&& g, VertexDesc u) noexcept {
     using edge_iter_type =
@@ -1323,7 +1323,7 @@ public: // Friend functions
    * @note Complexity: O(1) - direct indexed access
    * @note This is the ADL customization point for the num_edges(g, u) CPO
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto num_edges(const G& g, const U& u) noexcept {
     auto vid = static_cast<vertex_id_type>(u.vertex_id());
@@ -1365,7 +1365,7 @@ public: // Friend functions
    * @note This is the ADL customization point for the vertex_value(g, u) CPO
    * @note Only available when VV is not void
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<VV>)
   [[nodiscard]] friend constexpr decltype(auto) vertex_value(G&& g, const U& u) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
@@ -1413,7 +1413,7 @@ public: // Friend functions
    * @note For single-partition graphs, returns 0
    * @note This is the ADL customization point for the partition_id(g, u) CPO
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto partition_id(G&& g, const VertexDesc& u) noexcept -> partition_id_type {
     const auto vid = u.vertex_id();
-- 
2.43.0


From d08fbcf1009582a68ef9fe3fdb1dba952a87f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 38/77] fix: dijkstra rejects negative weights of every signed
 weight type

---
 include/graph/algorithm/dijkstra_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index b781433..5583d8f 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -151,7 +151,7 @@ constexpr void dijkstra_shortest_paths(
   static_assert(std::is_same_v<id_type, vertex_id_t<G>>,
                 "vertex_id_store_t<G> should equal vertex_id_t<G> for index_adjacency_list");
   using distance_type = range_value_t<Distances>;
-  using weight_type   = invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>;
+  using weight_type   = std::remove_cvref_t<invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>>;
 
   // relaxing the target is the function of reducing the distance from the source to the target
   auto relax_target = [&g, &predecessor, &distances, &compare, &combine] //
@@ -241,7 +241,7 @@ constexpr void dijkstra_shortest_paths(
 
       // Negative weights are not allowed for Dijkstra's algorithm
       if constexpr (is_signed_v<weight_type>) {
-        if (w < zero) {
+        if (w < weight_type{}) {
           throw std::out_of_range(
                 std::format("dijkstra_shortest_paths: invalid negative edge weight of '{}' encountered", w));
         }
-- 
2.43.0


From ecd7e9541283428e7894c79946925a4ab6860316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 39/77] fix: find_vertex on plain index containers takes
 constant time

---
 include/graph/adj_list/detail/graph_cpo.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index a80bba6..4842b9f 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -556,8 +556,21 @@ namespace _cpo_impls {
           using view_iterator      = typename view_type::iterator;
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
-          using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          auto first          = std::ranges::begin(vertices(std::forward<G>(g)));
+          using view_iterator = decltype(first);
+          using diff_type     = std::iter_difference_t<view_iterator>;
+          using vertices_type = std::remove_cvref_t<decltype(vertices(std::forward<G>(g)))>;
+          if constexpr (is_vertex_descriptor_view_v<vertices_type>) {
+            // The view's iterators are forward only: step over the ids in one go when they are indices
+            using storage_type = typename vertices_type::storage_type;
+            if constexpr (std::integral<storage_type>) {
+              return view_iterator{static_cast<storage_type>((*first).value() + static_cast<storage_type>(uid))};
+            } else {
+              return std::ranges::next(first, static_cast<diff_type>(uid));
+            }
+          } else {
+            return std::ranges::next(first, static_cast<diff_type>(uid));
+          }
         }
       }
     };
-- 
2.43.0


From 9c579fe68634b49545da17778f41fe9e946447bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 40/77] fix: afforest looks at each edge of a list container a
 constant number of times

---
 include/graph/algorithm/connected_components.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9bebe45..875e7a2 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -772,9 +772,10 @@ void afforest(G&&          g,         // graph
       continue; // Skip vertices in largest component
     }
     if (neighbor_rounds < edges(g, uid).size()) {
-      auto it = edges(g, vinfo.vertex).begin();
+      auto&& uvs = edges(g, vinfo.vertex);
+      auto   it  = uvs.begin();
       std::advance(it, neighbor_rounds); // Skip already-processed neighbors
-      for (; it != edges(g, vinfo.vertex).end(); ++it) {
+      for (; it != uvs.end(); ++it) {
         link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *it)), component);
       }
     }
@@ -880,15 +881,17 @@ void afforest(G&&          g,         // graph
     }
     // Process remaining forward edges (from g)
     if (neighbor_rounds < edges(g, uid).size()) {
-      auto it = edges(g, u).begin();
+      auto&& uvs = edges(g, u);
+      auto   it  = uvs.begin();
       std::advance(it, neighbor_rounds); // Skip sampled neighbors
-      for (; it != edges(g, u).end(); ++it) {
+      for (; it != uvs.end(); ++it) {
         link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *it)), component);
       }
     }
     // Process all backward edges (from transpose g_t)
     // This ensures bidirectional reachability for undirected graphs
-    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {
+    auto&& vus = edges(g_t, u);
+    for (auto it2 = vus.begin(); it2 != vus.end(); ++it2) {
       link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g_t, *it2)), component);
     }
   }
-- 
2.43.0


From 823cc2a1209437433b91d383655496c11d287ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 41/77] fix: an edge list in a std::list, forward_list or set
 is no longer taken for an adjacency list

views::edgelist over such a range failed to compile while probing whether it was an adjacency list.
---
 include/graph/adj_list/detail/graph_cpo.hpp  | 2 +-
 include/graph/adj_list/vertex_descriptor.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 4842b9f..94d6c4b 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -54,7 +54,7 @@ namespace _cpo_impls {
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
-    } && has_inner_value_pattern<std::ranges::iterator_t<G>>;
+    } && has_inner_value_pattern<std::ranges::iterator_t<G>> && vertex_iterator<std::ranges::iterator_t<G>>;
 
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
diff --git a/include/graph/adj_list/vertex_descriptor.hpp b/include/graph/adj_list/vertex_descriptor.hpp
index b97568d..1f63f67 100644
--- a/include/graph/adj_list/vertex_descriptor.hpp
+++ b/include/graph/adj_list/vertex_descriptor.hpp
@@ -109,7 +109,7 @@ public:
       return (*(std::begin(container) + static_cast<diff_t>(storage_)));
     } else {
       // For bidirectional, check if it's a pair-like type
-      if constexpr (pair_like_value<vt>) {
+      if constexpr (has_first_second<vt>) {
         // For map, bind the pair first, then return .second
         auto& element = *storage_;
         return (element.second);
@@ -133,7 +133,7 @@ public:
       using diff_t = typename std::iterator_traits<decltype(std::begin(container))>::difference_type;
       return (*(std::begin(container) + static_cast<diff_t>(storage_)));
     } else {
-      if constexpr (pair_like_value<vt>) {
+      if constexpr (has_first_second<vt>) {
         const auto& element = *storage_;
         return (element.second);
       } else {
-- 
2.43.0


From 9e5e483edb093a5f912d1a7b668336302cccaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 42/77] fix: edgelist views have no size() where num_edges(g)
 isn't the number of edges iterated

An undirected_adjacency_list counts an edge once but lists it from both vertices; set and map edge
containers count rejected duplicates. ranges::distance and other users of size() got a wrong length.
---
 include/graph/container/dynamic_graph.hpp             | 4 ++++
 include/graph/container/undirected_adjacency_list.hpp | 3 +++
 include/graph/views/edgelist.hpp                      | 4 +++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index f8d59dc..8cffa23 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -909,6 +909,10 @@ public: // types
   using edge_allocator_type = typename edges_type::allocator_type;
   using edge_type           = dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>;
 
+  // num_edges(g) counts the edges loaded, which is more than there are to iterate when the edge container
+  // keeps one edge per target (set, map and their unordered forms).
+  static constexpr bool num_edges_counts_listed_edges = !requires { typename edges_type::insert_return_type; };
+
   // Detection-idiom derived aliases (Phase 1 — dead code until Phase 2).
   // For standard traits that don't define in_edge_type/in_edges_type, these fall back
   // to edge_type and edges_type respectively, keeping runtime behavior unchanged.
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 19421b0..05e65ad 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -764,6 +764,9 @@ template <typename EV,
           typename Alloc>
 class base_undirected_adjacency_list {
 public: // Type Aliases
+  // Iterating the edges of every vertex meets an edge from both of its vertices; num_edges() counts it once.
+  static constexpr bool num_edges_counts_listed_edges = false;
+
   using graph_type       = undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>;
   using graph_value_type = GV;
   using allocator_type   = Alloc;
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index e66f370..5afd9f6 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -139,9 +139,11 @@ namespace edgelist_detail {
   /// @brief Detect if a graph type supports O(1) total edge count.
   /// True when the graph provides g.num_edges() member or ADL num_edges(g).
   /// False for the default CPO fallback (which iterates all vertices, O(V)).
+  /// Also false when the graph says that its num_edges(g) isn't the number of edges iterated.
   /// When true, edgelist_view conditionally provides size().
   template <class G>
-  concept has_const_time_num_edges = _has_num_edges_member<G> || _has_num_edges_adl<G>;
+  concept has_const_time_num_edges = (_has_num_edges_member<G> || _has_num_edges_adl<G>) &&
+                                     !requires { requires !std::remove_cv_t<G>::num_edges_counts_listed_edges; };
 } // namespace edgelist_detail
 
 // Forward declarations
-- 
2.43.0


From a6f8fe6b73b054b48673196e941c550c4410a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 43/77] fix: source_id of an in-edge of a keyed (map) vertex
 graph is the edge's source, not the owning vertex

---
 include/graph/detail/edge_cpo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..9f21c00 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -339,7 +339,8 @@ namespace _cpo_impls {
             // If the vertex data doesn't expose .in_edges(), fall back to the
             // no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            // Keyed (map) vertices hold it as the mapped value: underlying_value() is a (key, vertex) pair.
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From d9e5781262dc03f7897ec3d10f8bff9e59808b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 44/77] fix: edges_bfs prunes every cancelled branch, not only
 the last one cancelled

---
 include/graph/views/bfs.hpp | 45 ++++++++++++-------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..d26b026 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,18 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: leave no edges to explore from the target of the last edge,
+      // which is the vertex queued last
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -809,9 +802,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -824,7 +816,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +946,18 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: leave no edges to explore from the target of the last edge,
+      // which is the vertex queued last
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -996,9 +981,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -1012,7 +996,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From 5b86ddfc3ab6d08af171f08a7145c136aaf05e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:17 +0000
Subject: [PATCH 45/77] fix: compressed_graph load_vertices accepts a forward
 range without a size

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 95bd7e1..3ed428c 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -187,7 +187,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = static_cast<size_type>(std::ranges::distance(vrng));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
@@ -216,7 +216,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = static_cast<size_type>(std::ranges::distance(vrng));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
-- 
2.43.0


From 5fc02290f8da46495c7be7184ba3f658020f4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 46/77] fix: compressed_graph load_vertices of an empty range
 with a vertex count gives every vertex a value

---
 include/graph/container/compressed_graph.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 3ed428c..60b6e54 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -180,9 +180,12 @@ public: // Operations
   template <forward_range VRng, class VProj = identity>
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_row_values(const VRng& vrng, VProj projection, size_type vertex_count) {
-    // Handle empty range gracefully
-    if (std::ranges::empty(vrng))
+    // Handle empty range gracefully; every vertex still has a (default) value
+    if (std::ranges::empty(vrng)) {
+      if (size() < vertex_count)
+        resize(vertex_count);
       return;
+    }
 
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
@@ -209,9 +212,12 @@ public: // Operations
   template <forward_range VRng, class VProj = identity>
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_row_values(VRng&& vrng, VProj projection, size_type vertex_count) {
-    // Handle empty range gracefully
-    if (std::ranges::empty(vrng))
+    // Handle empty range gracefully; every vertex still has a (default) value
+    if (std::ranges::empty(vrng)) {
+      if (size() < vertex_count)
+        resize(vertex_count);
       return;
+    }
 
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
-- 
2.43.0


From 099e4edfd801fda8a28f21a28d526bde26c0dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:30 +0000
Subject: [PATCH 47/77] fix: dynamic_graph clear with non-integral vertex ids
 does not terminate

---
 include/graph/container/dynamic_graph.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 8cffa23..82e8253 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1526,8 +1526,7 @@ public: // Operations
 
   void clear() noexcept {
     vertices_.clear();
-    partition_.clear();
-    partition_.push_back(0);
+    partition_.clear(); // as in a default-constructed graph
     edge_count_ = 0;
   }
 
-- 
2.43.0


From cbfacccaf062b37e15a673ac0675426bca475e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 48/77] fix: the last partition of a compressed_graph includes
 vertices loaded after construction

---
 include/graph/container/compressed_graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 60b6e54..1dae881 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1170,7 +1170,10 @@ public: // Friend functions
 
     // Return range [partition_[pid], partition_[pid+1])
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    // (the last partition reaches to the last vertex, also when vertices were loaded after construction)
+    const auto end_vid = static_cast<std::size_t>(pid) + 1 == num_parts
+                               ? static_cast<std::size_t>(g.size())
+                               : static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid) + 1]);
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From 059f10c1c3b6e64448f3a232f510867944224d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 49/77] fix: num_vertices(g, pid) of a multi-partite
 compressed_graph counts the partition's vertices

---
 include/graph/container/compressed_graph.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 1dae881..24f8381 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1178,6 +1178,21 @@ public: // Friend functions
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
 
+  /**
+   * @brief Get the number of vertices in a partition
+   * 
+   * @param g The graph
+   * @param pid The partition ID (0-based index)
+   * @return Number of vertices that vertices(g, pid) yields; 0 if pid is out of range
+   * @note Complexity: O(1)
+   * @note This is the ADL customization point for the num_vertices(g, pid) CPO
+  */
+  template <typename G, std::integral PId>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  [[nodiscard]] friend constexpr size_type num_vertices(const G& g, const PId& pid) noexcept {
+    return static_cast<size_type>(vertices(g, pid).size());
+  }
+
   /**
    * @brief Find a vertex by its ID
    * 
-- 
2.43.0


From 9416777f0121690453dd1d2eb52fc695df5080f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 50/77] fix: compressed_graph accepts partition ids in any
 forward range

---
 include/graph/container/compressed_graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 24f8381..cdb0a4e 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -545,7 +545,8 @@ public: // Properties - resolve ambiguity from multiple inheritance
         , col_values_base(alloc)
         , row_index_(alloc)
         , col_index_(alloc)
-        , partition_(partition_start_ids, alloc) {
+        , partition_(alloc) {
+    partition_.assign(partition_start_ids.begin(), partition_start_ids.end());
     load_edges(erng, eprojection);
     terminate_partitions();
   }
@@ -586,7 +587,8 @@ public: // Properties - resolve ambiguity from multiple inheritance
         , col_values_base(alloc)
         , row_index_(alloc)
         , col_index_(alloc)
-        , partition_(partition_start_ids, alloc) {
+        , partition_(alloc) {
+    partition_.assign(partition_start_ids.begin(), partition_start_ids.end());
 
     load(erng, vrng, eprojection, vprojection);
     terminate_partitions();
-- 
2.43.0


From 60b36e3967a990efd7f439b82335a8e7d33a90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 51/77] fix: a plain unordered_map of edge ranges is accepted
 as a graph

---
 include/graph/adj_list/descriptor.hpp       | 4 ++--
 include/graph/adj_list/detail/graph_cpo.hpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/descriptor.hpp b/include/graph/adj_list/descriptor.hpp
index 2d1bac6..6be3b3e 100644
--- a/include/graph/adj_list/descriptor.hpp
+++ b/include/graph/adj_list/descriptor.hpp
@@ -111,13 +111,13 @@ concept random_access_vertex_pattern = std::random_access_iterator<Iter>;
 /**
  * @brief Concept for pair-value vertex pattern (map-like)
  * 
- * Used with bidirectional iterators where the value_type is pair-like.
+ * Used with forward or bidirectional iterators where the value_type is pair-like.
  * inner_value returns the .second part (the data, excluding the key).
  * Pattern: *iterator -> pair{key, data}, inner_value returns data&
  * Example: std::map<int, VertexData> where inner_value returns VertexData& (.second)
  */
 template <typename Iter>
-concept pair_value_vertex_pattern = std::bidirectional_iterator<Iter> && !std::random_access_iterator<Iter> &&
+concept pair_value_vertex_pattern = std::forward_iterator<Iter> && !std::random_access_iterator<Iter> &&
                                     pair_like_value<typename std::iterator_traits<Iter>::value_type>;
 
 /**
diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 94d6c4b..1a64a2e 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -54,7 +54,8 @@ namespace _cpo_impls {
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
-    } && has_inner_value_pattern<std::ranges::iterator_t<G>> && vertex_iterator<std::ranges::iterator_t<G>>;
+    } && (std::ranges::bidirectional_range<G> || std::ranges::sized_range<G>)
+      && has_inner_value_pattern<std::ranges::iterator_t<G>> && vertex_iterator<std::ranges::iterator_t<G>>;
 
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
-- 
2.43.0


From beca37f7d8cabd2c50ab954d7855dfa2d530aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 52/77] fix: standard views and unsized ranges of edges are
 accepted as edge lists by edgelist()

---
 include/graph/adj_list/detail/graph_cpo.hpp       | 2 +-
 include/graph/adj_list/vertex_descriptor_view.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 1a64a2e..2808aa9 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -54,7 +54,7 @@ namespace _cpo_impls {
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
-    } && (std::ranges::bidirectional_range<G> || std::ranges::sized_range<G>)
+    } && std::ranges::sized_range<G> // vertex_descriptor_view needs the size
       && has_inner_value_pattern<std::ranges::iterator_t<G>> && vertex_iterator<std::ranges::iterator_t<G>>;
 
     template <typename G>
diff --git a/include/graph/adj_list/vertex_descriptor_view.hpp b/include/graph/adj_list/vertex_descriptor_view.hpp
index 695ba19..c055845 100644
--- a/include/graph/adj_list/vertex_descriptor_view.hpp
+++ b/include/graph/adj_list/vertex_descriptor_view.hpp
@@ -148,10 +148,10 @@ private:
 
 // Deduction guides
 template <typename Container>
-vertex_descriptor_view(Container&) -> vertex_descriptor_view<typename Container::iterator>;
+vertex_descriptor_view(Container&) -> vertex_descriptor_view<std::ranges::iterator_t<Container>>;
 
 template <typename Container>
-vertex_descriptor_view(const Container&) -> vertex_descriptor_view<typename Container::const_iterator>;
+vertex_descriptor_view(const Container&) -> vertex_descriptor_view<std::ranges::iterator_t<const Container>>;
 
 } // namespace graph::adj_list
 
-- 
2.43.0


From ed7a5d66b3de8b17ba957e9bd3215590a2cc2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 53/77] fix: compressed_graph::clear() never allocates

clear() is noexcept but appended to the (empty) partition vector, so clearing
a graph without partition storage when memory is exhausted terminated the
program. An empty partition vector already means one partition.
---
 include/graph/container/compressed_graph.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index cdb0a4e..9fc9406 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -516,8 +516,7 @@ public: // Properties - resolve ambiguity from multiple inheritance
     col_index_.clear();
     row_values_base::clear();
     col_values_base::clear();
-    partition_.clear();
-    terminate_partitions();
+    partition_.clear(); // no partitions defined: all vertices are in partition 0 (and nothing is allocated here)
   }
 
   /**
-- 
2.43.0


From f6eee2de40ecec5db8364b672b349120694dba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 54/77] fix: compressed_graph load_edges interrupted by an
 exception leaves a readable graph

When the edges are not ordered (graph_error), or an allocation, a value copy
or the projection throws, the rows were left unterminated: edges to vertices
beyond the end, vertices without a value, num_edges() counting unreachable
edges. The graph is now left without vertices and edges.
---
 include/graph/container/compressed_graph.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 9fc9406..bc72ea4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -714,6 +714,7 @@ public: // Operations
     // Vertices may have been loaded already; their (empty) rows are rebuilt below
     vertex_count = max(vertex_count, size());
     row_index_.clear();
+    load_edges_guard guard{this};
 
     // No edges?
     if (begin(erng) == end(erng)) {
@@ -722,6 +723,7 @@ public: // Operations
       }
       if (row_values_base::size() < vertex_count)
         row_values_base::resize(vertex_count);
+      guard.g = nullptr; // done
       return;
     }
 
@@ -773,6 +775,7 @@ public: // Operations
     // remove the possibility of out-of-bounds occuring when getting a value for a row.
     if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
+    guard.g = nullptr; // done
   }
 
   // The only diff with this and ERng&& is v_.push_back vs. v_.emplace_back
@@ -786,6 +789,7 @@ public: // Operations
     // Vertices may have been loaded already; their (empty) rows are rebuilt below
     vertex_count = max(vertex_count, size());
     row_index_.clear();
+    load_edges_guard guard{this};
 
     // No edges?
     if (begin(erng) == end(erng)) {
@@ -794,6 +798,7 @@ public: // Operations
       }
       if (row_values_base::size() < vertex_count)
         row_values_base::resize(vertex_count);
+      guard.g = nullptr; // done
       return;
     }
 
@@ -862,6 +867,7 @@ public: // Operations
     // remove the possibility of out-of-bounds occuring when getting a value for a row.
     if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
+    guard.g = nullptr; // done
   }
 
   /**
@@ -902,6 +908,20 @@ public: // Operations
   }
 
 protected:
+  // Leaves a graph without vertices and edges when load_edges() is left by an exception: the rows
+  // and columns are incomplete (and not terminated) until it is done.
+  struct load_edges_guard {
+    compressed_graph_base* g;
+    constexpr ~load_edges_guard() {
+      if (g != nullptr) {
+        g->row_index_.clear();
+        g->col_index_.clear();
+        static_cast<row_values_base*>(g)->clear();
+        static_cast<col_values_base*>(g)->clear();
+      }
+    }
+  };
+
   template <class ERng, class EProj>
   constexpr vertex_id_type last_erng_id(ERng&& erng, EProj eprojection) const {
     vertex_id_type last_id = vertex_id_type();
-- 
2.43.0


From 591607d53a982ad7f884889ed39d6d2e0aa9fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 55/77] fix: an interrupted load keeps the out- and in-edges of
 a bidirectional graph in step

---
 include/graph/container/container_utility.hpp | 38 +++++++++++++++++--
 include/graph/container/dynamic_graph.hpp     | 36 ++++++++++++------
 2 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/include/graph/container/container_utility.hpp b/include/graph/container/container_utility.hpp
index 6a0ebf8..65b718c 100644
--- a/include/graph/container/container_utility.hpp
+++ b/include/graph/container/container_utility.hpp
@@ -113,14 +113,14 @@ constexpr auto push_or_insert(C& container) {
 // For map-based containers (std::map<VId, edge_type>), wraps edge in a pair
 // For sequential containers (vector, set, etc.), inserts edge directly
 template <class EdgeContainer, class Edge>
-constexpr void emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id_type& target_id, Edge&& edge) {
+constexpr auto emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id_type& target_id, Edge&& edge) {
   if constexpr (is_map_based_edge_container<EdgeContainer>) {
     // Map-based: key is target_id, value is edge
-    edges.emplace(target_id, std::forward<Edge>(edge));
+    return edges.emplace(target_id, std::forward<Edge>(edge));
   } else {
     // Sequential/set-based: insert edge directly
     if constexpr (has_emplace<EdgeContainer>) {
-      edges.emplace(std::forward<Edge>(edge));
+      return edges.emplace(std::forward<Edge>(edge));
     } else if constexpr (has_insert<EdgeContainer>) {
       edges.insert(std::forward<Edge>(edge));
     } else if constexpr (has_emplace_back<EdgeContainer>) {
@@ -134,6 +134,38 @@ constexpr void emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id
   }
 }
 
+// Insert an edge and then call next(), which inserts its counterpart into another container. When next()
+// throws the edge is taken out again, so that both containers hold the edge or neither does.
+template <class EdgeContainer, class Edge, class F>
+constexpr void
+emplace_edge_then(EdgeContainer& edges, const typename Edge::vertex_id_type& target_id, Edge&& edge, F&& next) {
+  if constexpr (has_key_type<EdgeContainer>) {
+    auto inserted = emplace_edge(edges, target_id, std::forward<Edge>(edge));
+    try {
+      next();
+    } catch (...) {
+      if constexpr (requires { inserted.second; }) { // unique keys: the edge may have been there already
+        if (inserted.second)
+          edges.erase(inserted.first);
+      } else {
+        edges.erase(inserted);
+      }
+      throw;
+    }
+  } else {
+    emplace_edge(edges, target_id, std::forward<Edge>(edge));
+    try {
+      next();
+    } catch (...) {
+      if constexpr (requires { edges.pop_back(); })
+        edges.pop_back();
+      else
+        edges.pop_front();
+      throw;
+    }
+  }
+}
+
 // Forward a value that was projected from an element of a range passed as "Rng&& rng". The value is
 // moved when the caller gave up the range (an rvalue that owns its elements) or when the projection
 // returned a new object, and is copied when it still belongs to a range the caller keeps.
diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 82e8253..7ae1707 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1328,15 +1328,19 @@ public: // Load operations
         if constexpr (is_void_v<EV>) {
           if constexpr (Bidirectional) {
             auto& rev = vertices_[e.target_id].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+            emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id),
+                              [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id)); });
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
         } else {
           if constexpr (Bidirectional) {
             auto& rev = vertices_[e.target_id].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+            emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id, e.value), // copy
+                              [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value))); });
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
         }
         edge_count_ += 1;
       }
@@ -1415,15 +1419,19 @@ public: // Load operations
             if constexpr (is_void_v<EV>) {
               if constexpr (Bidirectional) {
                 auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-                emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+                emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id),
+                                  [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id)); });
+              } else {
+                emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
               }
-              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
             } else {
               if constexpr (Bidirectional) {
                 auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-                emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+                emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id, e.value), // copy
+                                  [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value))); });
+              } else {
+                emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
               }
-              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
             }
             edge_count_ += 1;
           }
@@ -1445,15 +1453,19 @@ public: // Load operations
         if constexpr (is_void_v<EV>) {
           if constexpr (Bidirectional) {
             auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+            emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id),
+                              [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id)); });
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
         } else {
           if constexpr (Bidirectional) {
             auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+            emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id, e.value), // copy
+                              [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value))); });
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
         }
         edge_count_ += 1;
       }
-- 
2.43.0


From a45d1ff2d5e1352cabcf23aa4fb787b3af12e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 56/77] fix: compressed_graph copy assignment that throws
 leaves the graph as it was

---
 include/graph/container/compressed_graph.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index bc72ea4..f0e3069 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -462,8 +462,15 @@ public: // Construction/Destruction
   constexpr compressed_graph_base(compressed_graph_base&&)      = default;
   constexpr ~compressed_graph_base()                            = default;
 
-  constexpr compressed_graph_base& operator=(const compressed_graph_base&) = default;
-  constexpr compressed_graph_base& operator=(compressed_graph_base&&)      = default;
+  // The vectors are copied before any is replaced, so that they agree with each other when a copy throws
+  constexpr compressed_graph_base& operator=(const compressed_graph_base& rhs) {
+    if (this != &rhs) {
+      compressed_graph_base tmp(rhs);
+      *this = std::move(tmp);
+    }
+    return *this;
+  }
+  constexpr compressed_graph_base& operator=(compressed_graph_base&&) = default;
 
   constexpr compressed_graph_base(const Alloc& alloc)
         : row_values_base(alloc), col_values_base(alloc), row_index_(alloc), col_index_(alloc), partition_(alloc) {
-- 
2.43.0


From 29d901085243a786515070228a25b8d25114a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 57/77] fix: dynamic_graph copy assignment that throws leaves
 the graph as it was

---
 include/graph/container/dynamic_graph.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 7ae1707..a3b980f 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -937,7 +937,14 @@ public: // Construction/Destruction/Assignment
         , edge_count_(std::exchange(rhs.edge_count_, 0)) {}
   constexpr ~dynamic_graph_base()                         = default;
 
-  constexpr dynamic_graph_base& operator=(const dynamic_graph_base&) = default;
+  // Everything is copied before anything is replaced, so that the parts agree with each other when a copy throws
+  constexpr dynamic_graph_base& operator=(const dynamic_graph_base& rhs) {
+    if (this != &rhs) {
+      dynamic_graph_base tmp(rhs);
+      *this = std::move(tmp);
+    }
+    return *this;
+  }
   constexpr dynamic_graph_base&
   operator=(dynamic_graph_base&& rhs) noexcept(std::is_nothrow_move_assignable_v<vertices_type>) {
     if (this != &rhs) {
-- 
2.43.0


From 4aa84560a9774710a3d296faabda15a13c0b60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 58/77] fix: compressed_graph load_vertices that throws leaves
 no vertex without a value

---
 include/graph/container/compressed_graph.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index f0e3069..fb9f6de 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -661,6 +661,9 @@ public: // Operations
     const size_type id_count = std::ranges::empty(vrng) ? 0 : static_cast<size_type>(max_id) + 1;
     vertex_count             = max({vertex_count, id_count, size()});
 
+    // The values come first, so that no vertex is left without a value when this throws
+    row_values_base::load_row_values(vrng, vprojection, vertex_count);
+
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
@@ -668,8 +671,6 @@ public: // Operations
       // Expand existing structure if needed
       row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
-
-    row_values_base::load_row_values(vrng, vprojection, vertex_count);
   }
 
   /**
-- 
2.43.0


From 29b97e2deb763f97602527aa9de80cfee21823dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 59/77] fix: reading a graph whose ids own memory throws
 bad_alloc instead of terminating

---
 include/graph/adj_list/detail/graph_cpo.hpp | 16 +++++++++--
 include/graph/adj_list/edge_descriptor.hpp  | 10 ++++---
 include/graph/detail/edge_cpo.hpp           | 30 ++++++++++++++-------
 include/graph/views/edgelist.hpp            |  6 +++--
 include/graph/views/incidence.hpp           | 12 ++++++---
 include/graph/views/neighbors.hpp           | 12 ++++++---
 include/graph/views/vertexlist.hpp          | 12 ++++++---
 7 files changed, 70 insertions(+), 28 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 2808aa9..570f0d4 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -446,12 +446,24 @@ namespace _cpo_impls {
       std::ranges::next(std::ranges::begin(vertices(std::declval<G&>())), uid);
     };
 
+    // An id is converted to the graph's own id type first, which may throw when ids own memory
+    template <typename G, typename VId>
+    inline constexpr bool _nothrow_id_cast = [] {
+      if constexpr (requires { typename G::vertex_id_type; }) {
+        return std::is_nothrow_constructible_v<typename G::vertex_id_type, const VId&>;
+      } else {
+        return true;
+      }
+    }();
+
     template <typename G, typename VId>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G, VId>) {
-        return {_St::_member, noexcept(std::declval<G&>().find_vertex(std::declval<const VId&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().find_vertex(std::declval<const VId&>())) &&
+                               _nothrow_id_cast<G, VId>};
       } else if constexpr (_has_adl<G, VId>) {
-        return {_St::_adl, noexcept(find_vertex(std::declval<G&>(), std::declval<const VId&>()))};
+        return {_St::_adl, noexcept(find_vertex(std::declval<G&>(), std::declval<const VId&>())) &&
+                            _nothrow_id_cast<G, VId>};
       } else if constexpr (_has_associative<G, VId>) {
         constexpr bool no_throw_find = noexcept(std::declval<G&>().find(std::declval<const VId&>()));
         // Note: We directly construct iterator from map iterator
diff --git a/include/graph/adj_list/edge_descriptor.hpp b/include/graph/adj_list/edge_descriptor.hpp
index 7473f1a..d6a47af 100644
--- a/include/graph/adj_list/edge_descriptor.hpp
+++ b/include/graph/adj_list/edge_descriptor.hpp
@@ -43,6 +43,10 @@ public:
   // Conditional storage type for edge: size_t for random access, iterator for forward
   using edge_storage_type = std::conditional_t<std::random_access_iterator<EdgeIter>, std::size_t, EdgeIter>;
 
+  /// True when copying a vertex id never throws; an id that owns memory (e.g. a std::string key) may.
+  static constexpr bool nothrow_id =
+        std::is_nothrow_copy_constructible_v<std::remove_cvref_t<decltype(std::declval<const vertex_desc&>().vertex_id())>>;
+
   // Default constructor
   constexpr edge_descriptor() noexcept
   requires std::default_initializable<edge_storage_type> && std::default_initializable<vertex_desc>
@@ -106,7 +110,7 @@ public:
      * Only available when EdgeDirection is in_edge_tag.
      */
   template <typename VertexData>
-  [[nodiscard]] constexpr auto source_id(const VertexData& vertex_data) const noexcept
+  [[nodiscard]] constexpr auto source_id(const VertexData& vertex_data) const noexcept(nothrow_id)
   requires(is_in_edge) {
     const auto& edge_container = [&]() -> decltype(auto) {
       if constexpr (requires { vertex_data.in_edges(); }) {
@@ -158,7 +162,7 @@ public:
      * Only available when EdgeDirection is in_edge_tag.
      */
   template <typename VertexData>
-  [[nodiscard]] constexpr auto target_id(const VertexData& /*vertex_data*/) const noexcept
+  [[nodiscard]] constexpr auto target_id(const VertexData& /*vertex_data*/) const noexcept(nothrow_id)
   requires(is_in_edge) {
     return source_.vertex_id();
   }
@@ -173,7 +177,7 @@ public:
      * Only available when EdgeDirection is out_edge_tag.
      */
   template <typename VertexData>
-  [[nodiscard]] constexpr auto target_id(const VertexData& vertex_data) const noexcept
+  [[nodiscard]] constexpr auto target_id(const VertexData& vertex_data) const noexcept(nothrow_id)
   requires(is_out_edge) {
     using edge_value_type = typename std::iterator_traits<EdgeIter>::value_type;
 
diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 9f21c00..7427b1f 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -28,6 +28,11 @@ namespace _cpo_impls {
 
   using detail::_cpo_impls::_Choice_t;
 
+  // Whether an expression of type T can be returned by value without throwing; copying an id or a value that
+  // owns memory (e.g. a std::string) may throw even when accessing it doesn't.
+  template <typename T>
+  inline constexpr bool _nothrow_result = std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T>;
+
   // =========================================================================
   // target_id(g, uv) CPO
   // =========================================================================
@@ -111,7 +116,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_edge_list_descriptor<E>) {
         return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().target_id())};
       } else if constexpr (_has_edge_data_member<E>) {
-        return {_St::_edge_data_member, noexcept(std::declval<const E&>().target_id)};
+        return {_St::_edge_data_member, _nothrow_result<decltype((std::declval<const E&>().target_id))>};
       } else if constexpr (_is_tuple_like_edge<E>) {
         return {_St::_tuple_like, noexcept(std::get<1>(std::declval<const E&>()))};
       } else {
@@ -265,19 +270,26 @@ namespace _cpo_impls {
     template <typename G, typename E>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_native_edge_member<G, E>) {
-        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id())};
+        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id()) &&
+                               _nothrow_result<decltype(((*std::declval<const E&>().value()).source_id()))>};
       } else if constexpr (_has_member<G, E>) {
-        return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>()))};
+        return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>())) &&
+                               _nothrow_result<decltype((std::declval<G>().source_id(std::declval<const E&>())))>};
       } else if constexpr (_has_adl<G, E>) {
-        return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>()))};
+        return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>())) &&
+                               _nothrow_result<decltype((source_id(std::declval<G>(), std::declval<const E&>())))>};
       } else if constexpr (_has_adj_list_descriptor<E>) {
-        return {_St::_adj_list_descriptor, noexcept(std::declval<const E&>().source_id())};
+        return {_St::_adj_list_descriptor, noexcept(std::declval<const E&>().source_id()) &&
+                               _nothrow_result<decltype((std::declval<const E&>().source_id()))>};
       } else if constexpr (_has_edge_list_descriptor<E>) {
-        return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().source_id())};
+        return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().source_id()) &&
+                               _nothrow_result<decltype((std::declval<const E&>().source_id()))>};
       } else if constexpr (_has_edge_data_member<E>) {
-        return {_St::_edge_data_member, noexcept(std::declval<const E&>().source_id)};
+        return {_St::_edge_data_member, noexcept(std::declval<const E&>().source_id) &&
+                               _nothrow_result<decltype((std::declval<const E&>().source_id))>};
       } else if constexpr (_is_tuple_like_edge<E>) {
-        return {_St::_tuple_like, noexcept(std::get<0>(std::declval<const E&>()))};
+        return {_St::_tuple_like, noexcept(std::get<0>(std::declval<const E&>())) &&
+                               _nothrow_result<decltype((std::get<0>(std::declval<const E&>())))>};
       } else {
         return {_St::_none, false};
       }
@@ -454,7 +466,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_edge_list_descriptor<E>) {
         return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().value())};
       } else if constexpr (_has_edge_data_member<E>) {
-        return {_St::_edge_data_member, noexcept(std::declval<const E&>().value)};
+        return {_St::_edge_data_member, _nothrow_result<decltype((std::declval<const E&>().value))>};
       } else if constexpr (_is_tuple_like_edge<E>) {
         return {_St::_tuple_like, noexcept(std::get<2>(std::declval<const E&>()))};
       } else {
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index 5afd9f6..93aaf5e 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -198,7 +198,8 @@ public:
     constexpr iterator(G* g, vertex_type v, vertex_type v_end, edge_type current_edge, edge_type edge_end) noexcept
           : g_(g), v_(v), v_end_(v_end), current_edge_(current_edge), edge_end_(edge_end) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       auto source_id = adj_list::vertex_id(*g_, v_);
       auto target_id = adj_list::target_id(*g_, current_edge_);
       return value_type{static_cast<vertex_id_type>(source_id), static_cast<vertex_id_type>(target_id), current_edge_};
@@ -528,7 +529,8 @@ public:
     constexpr iterator(G* g, vertex_type v, vertex_type v_end, edge_type current_edge, edge_type edge_end) noexcept
           : g_(g), v_(v), v_end_(v_end), current_edge_(current_edge), edge_end_(edge_end) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       return value_type{static_cast<vertex_id_type>(adj_list::vertex_id(*g_, v_)),
                         static_cast<vertex_id_type>(adj_list::target_id(*g_, current_edge_))};
     }
diff --git a/include/graph/views/incidence.hpp b/include/graph/views/incidence.hpp
index 73ae8ab..b022534 100644
--- a/include/graph/views/incidence.hpp
+++ b/include/graph/views/incidence.hpp
@@ -162,7 +162,8 @@ public:
   /**
    * @brief Forward iterator yielding @c edge_data{tid, uv} per edge.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept, except that dereferencing may throw
+   * when copying a vertex id may.
    */
   class iterator {
   public:
@@ -176,7 +177,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       return info_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_)), current_};
     }
 
@@ -494,7 +496,8 @@ public:
   /**
    * @brief Forward iterator yielding @c edge_data{tid} per edge.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept, except that dereferencing may throw
+   * when copying a vertex id may.
    */
   class iterator {
   public:
@@ -508,7 +511,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       return value_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_))};
     }
 
diff --git a/include/graph/views/neighbors.hpp b/include/graph/views/neighbors.hpp
index 1d2e104..6be74a2 100644
--- a/include/graph/views/neighbors.hpp
+++ b/include/graph/views/neighbors.hpp
@@ -168,7 +168,8 @@ public:
   /**
    * @brief Forward iterator yielding @c neighbor_data{tid, n} per neighbor.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept, except that dereferencing may throw
+   * when copying a vertex id may.
    */
   class iterator {
   public:
@@ -182,7 +183,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_edge_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       auto nbr    = Accessor{}.neighbor(*g_, current_edge_);
       auto nbr_id = static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_));
       return value_type{nbr_id, nbr};
@@ -506,7 +508,8 @@ public:
   /**
    * @brief Forward iterator yielding @c neighbor_data{tid} per neighbor.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept, except that dereferencing may throw
+   * when copying a vertex id may.
    */
   class iterator {
   public:
@@ -520,7 +523,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_edge_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       return value_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_))};
     }
 
diff --git a/include/graph/views/vertexlist.hpp b/include/graph/views/vertexlist.hpp
index 2abb412..92284fa 100644
--- a/include/graph/views/vertexlist.hpp
+++ b/include/graph/views/vertexlist.hpp
@@ -187,7 +187,8 @@ public:
   /**
    * @brief Forward iterator yielding @c vertex_data{uid, u} per vertex.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept, except that dereferencing may throw
+   * when copying a vertex id may.
    */
   class iterator {
   public:
@@ -201,7 +202,8 @@ public:
 
     constexpr iterator(G* g, vertex_type v) noexcept : g_(g), current_(v) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       return value_type{adj_list::vertex_id(*g_, current_), current_};
     }
 
@@ -413,7 +415,8 @@ public:
   /**
    * @brief Forward iterator yielding @c vertex_data{uid} per vertex.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept, except that dereferencing may throw
+   * when copying a vertex id may.
    */
   class iterator {
   public:
@@ -427,7 +430,8 @@ public:
 
     constexpr iterator(G* g, vertex_type v) noexcept : g_(g), current_(v) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+          noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
       return value_type{adj_list::vertex_id(*g_, current_)};
     }
 
-- 
2.43.0


From eba7e4dc0a7d38cc4a55317f86d044c835ff74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 60/77] fix: edges(g, uid) finds the edges() member of the
 vertex object, as edges(g, u) does

---
 include/graph/adj_list/detail/graph_cpo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 570f0d4..e8ae98a 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -684,7 +684,8 @@ namespace _cpo_impls {
           requires(G& g, const VId& uid) {
             { find_vertex(g, uid) } -> std::input_iterator;
             requires vertex_descriptor_type<decltype(*find_vertex(g, uid))>;
-          } && (_has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+          } && (_has_vertex_member_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+                _has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
                 _has_edge_value_pattern<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))>);
 
     template <typename G, typename VId>
-- 
2.43.0


From a59c66bf1c3eea438237d18e7347898b4454be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 61/77] fix: num_vertices(g) counts vertices(g) when the graph
 is not a range

---
 include/graph/adj_list/detail/graph_cpo.hpp | 27 +++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index e8ae98a..2e6b8ba 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -1379,7 +1379,10 @@ namespace _cpo_impls {
   // =========================================================================
 
   namespace _num_vertices {
-    enum class _St { _none, _member, _adl, _ranges };
+    enum class _St { _none, _member, _adl, _ranges, _vertices };
+
+    // Use the public vertices CPO (already declared above)
+    using _cpo_instances::vertices;
 
     // Check for g.num_vertices() member function
     template <typename G>
@@ -1397,6 +1400,12 @@ namespace _cpo_impls {
     template <typename G>
     concept _has_ranges = std::ranges::sized_range<G>;
 
+    // Check if vertices(g) is sized, for graphs that are not ranges themselves
+    template <typename G>
+    concept _has_vertices = requires(const G& g) {
+      { vertices(g) } -> std::ranges::sized_range;
+    };
+
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G>) {
@@ -1405,6 +1414,8 @@ namespace _cpo_impls {
         return {_St::_adl, noexcept(num_vertices(std::declval<const G&>()))};
       } else if constexpr (_has_ranges<G>) {
         return {_St::_ranges, noexcept(std::ranges::size(std::declval<const G&>()))};
+      } else if constexpr (_has_vertices<G>) {
+        return {_St::_vertices, noexcept(std::ranges::size(vertices(std::declval<const G&>())))};
       } else {
         return {_St::_none, false};
       }
@@ -1419,10 +1430,11 @@ namespace _cpo_impls {
       /**
              * @brief Get the number of vertices in the graph
              * 
-             * Resolution order (three-tier approach):
+             * Resolution order:
              * 1. g.num_vertices() - Member function (highest priority)
              * 2. num_vertices(g) - ADL (medium priority)
-             * 3. std::ranges::size(g) - Ranges default (lowest priority)
+             * 3. std::ranges::size(g) - Ranges default
+             * 4. std::ranges::size(vertices(g)) - for graphs that are not ranges (lowest priority)
              * 
              * The default implementation works for any sized_range (vector, deque, map, etc.)
              * Custom graph types can override by providing a member function or ADL function.
@@ -1443,6 +1455,8 @@ namespace _cpo_impls {
           return num_vertices(g);
         } else if constexpr (_Choice<_G>._Strategy == _St::_ranges) {
           return std::ranges::size(g);
+        } else if constexpr (_Choice<_G>._Strategy == _St::_vertices) {
+          return std::ranges::size(vertices(g));
         }
       }
     };
@@ -1495,10 +1509,11 @@ namespace _cpo_impls {
       /**
              * @brief Get the number of vertices in the graph
              * 
-             * Resolution order (three-tier approach):
+             * Resolution order:
              * 1. g.num_vertices() - Member function (highest priority)
              * 2. num_vertices(g) - ADL (medium priority)
-             * 3. std::ranges::size(g) - Ranges default (lowest priority)
+             * 3. std::ranges::size(g) - Ranges default
+             * 4. std::ranges::size(vertices(g)) - for graphs that are not ranges (lowest priority)
              * 
              * The default implementation works for any sized_range (vector, deque, map, etc.)
              * Custom graph types can override by providing a member function or ADL function.
@@ -1519,6 +1534,8 @@ namespace _cpo_impls {
           return num_vertices(g);
         } else if constexpr (_Choice<_G>._Strategy == _St::_ranges) {
           return std::ranges::size(g);
+        } else if constexpr (_Choice<_G>._Strategy == _St::_vertices) {
+          return std::ranges::size(vertices(g));
         }
       }
 
-- 
2.43.0


From 5856b2887934cbb2bc156deeb728111f487b58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 62/77] fix: edges(g, uid) and in_edges(g, uid) refer to the
 container a customisation returns instead of a copy that dies

---
 include/graph/adj_list/detail/graph_cpo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 2e6b8ba..a2848f1 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -803,7 +803,7 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           // ADL: edges(g, uid)
-          auto result = [&g, &uid]() {
+          auto&& result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -811,7 +811,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_if_needed(std::move(result), v);
+          return _wrap_if_needed(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           // Default: find vertex then call edges(g, u)
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
@@ -1018,7 +1018,7 @@ namespace _cpo_impls {
         using _VId = std::remove_cvref_t<VId>;
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
-          auto result = [&g, &uid]() {
+          auto&& result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return in_edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -1026,7 +1026,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_in_edge(std::move(result), v);
+          return _wrap_in_edge(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
-- 
2.43.0


From ba83faae29d128b0235a266dd3042a1cfcba2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 63/77] fix: edge-list descriptors order when the value
 compares more weakly than the ids

---
 .../graph/edge_list/edge_list_descriptor.hpp   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/graph/edge_list/edge_list_descriptor.hpp b/include/graph/edge_list/edge_list_descriptor.hpp
index 0fe6729..c509e99 100644
--- a/include/graph/edge_list/edge_list_descriptor.hpp
+++ b/include/graph/edge_list/edge_list_descriptor.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <compare>
 #include <type_traits>
 #include <concepts>
 #include <functional>
@@ -71,14 +72,19 @@ public:
   }
 
   constexpr auto operator<=>(const edge_descriptor& other) const noexcept {
-    if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
-      return cmp;
-    if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
-      return cmp;
     if constexpr (!std::is_void_v<EV>) {
-      return value_.get() <=> other.value_.get();
+      // The ids and the value may be ordered with different strengths (e.g. a floating-point value)
+      using ordering_type = std::common_comparison_category_t<decltype(source_id_ <=> other.source_id_),
+                                                              decltype(value_.get() <=> other.value_.get())>;
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return ordering_type(cmp);
+      if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
+        return ordering_type(cmp);
+      return ordering_type(value_.get() <=> other.value_.get());
     } else {
-      return std::strong_ordering::equal;
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return cmp;
+      return target_id_ <=> other.target_id_;
     }
   }
 
-- 
2.43.0


From 84fc1350c6dd4f91727c0abd769c4d0cc01d5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 64/77] fix: graphs with a custom allocator can be constructed:
 the partition list uses the same allocator

compressed_graph and dynamic_graph kept their partition list in a std::vector with std::allocator and
constructed it with the graph's allocator, so the allocator-taking constructors did not compile for any other.
---
 include/graph/container/compressed_graph.hpp | 2 +-
 include/graph/container/dynamic_graph.hpp    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index fb9f6de..facd8d3 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -435,7 +435,7 @@ public: // Types
   using graph_type = compressed_graph_base<EV, VV, GV, VId, EIndex, Alloc>;
 
   using partition_id_type = VId;
-  using partition_vector  = std::vector<VId>;
+  using partition_vector  = std::vector<VId, typename std::allocator_traits<Alloc>::template rebind_alloc<VId>>;
 
   using vertex_id_type      = VId;
   using vertex_type         = row_type;
diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index a3b980f..d183e7a 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -897,7 +897,8 @@ public: // types
   using graph_traits = Traits;
 
   using partition_id_type = VId;
-  using partition_vector  = std::vector<VId>;
+  using partition_vector  =
+        std::vector<VId, typename std::allocator_traits<typename Traits::vertices_type::allocator_type>::template rebind_alloc<VId>>;
 
   using vertex_id_type        = VId;
   using vertex_type           = dynamic_vertex<EV, VV, GV, VId, Bidirectional, Traits>;
-- 
2.43.0


From 71311f571beac20e6fac2b51c69ab9ded01c847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 65/77] fix: vertices dynamic_graph adds itself keep their
 edges in the graph's allocator

resize_vertices and the insertion of vertices by id made vertices with a default-constructed allocator.
---
 include/graph/container/dynamic_graph.hpp | 37 +++++++++++++++++------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index d183e7a..8caff8d 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1147,10 +1147,10 @@ public: // Load operations
           // copyable_vertex_t<VId, void> has only 1 element: {id}
           auto&& projected = vproj(v);
           VId    id        = projected.id;
-          (void)vertices_[id]; // ensure vertex exists
+          (void)insert_vertex(id); // ensure vertex exists
         } else {
           auto&& [id, value]    = vproj(v); //copyable_vertex_t<VId, VV>
-          vertices_[id].value() = value;
+          insert_vertex(id).value() = value;
         }
       }
     } else {
@@ -1217,10 +1217,10 @@ public: // Load operations
           // copyable_vertex_t<VId, void> has only 1 element: {id}
           auto&& projected = vproj(v);
           VId    id        = projected.id;
-          (void)vertices_[id]; // ensure vertex exists
+          (void)insert_vertex(id); // ensure vertex exists
         } else {
           auto&& [id, value]    = vproj(v); //copyable_vertex_t<VId, VV>
-          vertices_[id].value() = forward_projected_value<VRng, decltype(vproj(v))>(value);
+          insert_vertex(id).value() = forward_projected_value<VRng, decltype(vproj(v))>(value);
         }
       }
     } else {
@@ -1331,11 +1331,11 @@ public: // Load operations
 
         // operator[] on map will auto-insert default vertex if not present
         // We need to ensure both source and target vertices exist
-        (void)vertices_[e.target_id]; // ensure target vertex exists
-        auto& vertex_edges = vertices_[e.source_id].edges();
+        (void)insert_vertex(e.target_id); // ensure target vertex exists
+        auto& vertex_edges = insert_vertex(e.source_id).edges();
         if constexpr (is_void_v<EV>) {
           if constexpr (Bidirectional) {
-            auto& rev = vertices_[e.target_id].in_edges();
+            auto& rev = insert_vertex(e.target_id).in_edges();
             emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id),
                               [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id)); });
           } else {
@@ -1343,7 +1343,7 @@ public: // Load operations
           }
         } else {
           if constexpr (Bidirectional) {
-            auto& rev = vertices_[e.target_id].in_edges();
+            auto& rev = insert_vertex(e.target_id).in_edges();
             emplace_edge_then(rev, e.source_id, in_edge_type(e.source_id, e.value), // copy
                               [&] { emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value))); });
           } else {
@@ -1537,8 +1537,16 @@ public: // Operations
   }
 
   void resize_vertices(size_type count) {
-    if constexpr (resizable<vertices_type>) // resize if we can; otherwise ignored
-      vertices_.resize(count);
+    if constexpr (resizable<vertices_type>) { // resize if we can; otherwise ignored
+      if constexpr (std::allocator_traits<vertex_allocator_type>::is_always_equal::value) {
+        vertices_.resize(count);
+      } else {
+        while (vertices_.size() > count)
+          vertices_.pop_back();
+        while (vertices_.size() < count) // new vertices use the graph's allocator for their edges
+          vertices_.emplace_back(edge_allocator_type(vertices_.get_allocator()));
+      }
+    }
   }
   void resize_edges(size_type count) {
     // ignored for this graph; may be meaningful for another data structure like CSR
@@ -1654,6 +1662,15 @@ public: // Operations
     }
   }
 
+private:
+  // The vertex of an associative container, which is inserted when it does not exist yet
+  vertex_type& insert_vertex(const VId& id) {
+    if constexpr (std::allocator_traits<vertex_allocator_type>::is_always_equal::value)
+      return vertices_[id];
+    else // its edges use the graph's allocator
+      return vertices_.try_emplace(id, edge_allocator_type(vertices_.get_allocator())).first->second;
+  }
+
 private: // Member Variables
   vertices_type    vertices_;
   partition_vector partition_; // partition_[n] holds the first vertex id for each partition n
-- 
2.43.0


From 82d7558c81c9e9d4a733fdc3e1f5846595cae166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 66/77] fix: undirected_adjacency_list copies use the allocator
 that the allocator's traits select

The allocator constructor left the vertices' allocator default-constructed, the copy constructor ignored
select_on_container_copy_construction and copy assignment replaced the allocator of the target.
---
 .../detail/undirected_adjacency_list_impl.hpp | 43 +++++++++++--------
 .../container/undirected_adjacency_list.hpp   |  4 +-
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index ee97cac..c5599ba 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1088,10 +1088,20 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const base_undirected_adjacency_list& other)
-      : base_undirected_adjacency_list() { // delegate: the destructor releases the edges if an exception is thrown
-  // Copy base class members
-  edge_alloc_ = other.edge_alloc_;
+      : base_undirected_adjacency_list(other,
+                                       allocator_traits<Alloc>::select_on_container_copy_construction(
+                                             allocator_type(other.edge_alloc_))) {}
 
+// Copy constructor with allocator
+template <typename EV,
+          typename VV,
+          typename GV,
+          integral VId,
+          template <typename V, typename A> class VContainer,
+          typename Alloc>
+base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
+      const base_undirected_adjacency_list& other, const allocator_type& alloc)
+      : base_undirected_adjacency_list(alloc) { // delegate: the destructor releases the edges if an exception is thrown
   // Reserve space and copy vertices (with empty edge lists)
   vertices_.reserve(other.vertices_.size());
 
@@ -1272,15 +1282,11 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>&
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::operator=(
       const base_undirected_adjacency_list& other) {
   if (this != &other) {
-    // Use copy-and-swap idiom
-    // Note: This requires derived class to have proper copy constructor
-    base_undirected_adjacency_list tmp(other);
-
-    // Swap base members
-    vertices_.swap(tmp.vertices_);
-    std::swap(edges_size_, tmp.edges_size_);
-    std::swap(vertex_alloc_, tmp.vertex_alloc_);
-    std::swap(edge_alloc_, tmp.edge_alloc_);
+    // Copy everything first, so that this graph is unchanged if an exception is thrown. As in the standard
+    // containers this graph keeps its own allocator, unless the allocator asks to be copied with the elements.
+    constexpr bool propagate = allocator_traits<Alloc>::propagate_on_container_copy_assignment::value;
+    base_undirected_adjacency_list tmp(other, allocator_type(propagate ? other.edge_alloc_ : edge_alloc_));
+    *this = std::move(tmp);
   }
   return *this;
 }
@@ -1707,7 +1713,7 @@ undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::undirected_adjace
       const undirected_adjacency_list& other)
       : base_type(other), graph_value_(other.graph_value_) {}
 
-// Copy assignment operator - uses copy-and-swap idiom
+// Copy assignment operator - this graph is unchanged if an exception is thrown
 template <typename EV,
           typename VV,
           typename GV,
@@ -1717,8 +1723,10 @@ template <typename EV,
 undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>&
 undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::operator=(const undirected_adjacency_list& other) {
   if (this != &other) {
-    undirected_adjacency_list tmp(other);
-    swap(tmp);
+    graph_value_type tmp(other.graph_value_);
+    base_type::operator=(other);
+    using std::swap;
+    swap(graph_value_, tmp);
   }
   return *this;
 }
@@ -2069,10 +2077,7 @@ void undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::swap(undir
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>&
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::operator=(const undirected_adjacency_list& other) {
-  if (this != &other) {
-    undirected_adjacency_list tmp(other);
-    swap(tmp);
-  }
+  base_type::operator=(other);
   return *this;
 }
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 05e65ad..df464c7 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -932,10 +932,12 @@ protected: // Data Members (protected for derived class access)
 protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list() = default;
 
-  explicit base_undirected_adjacency_list(const allocator_type& alloc) : vertices_(alloc), edge_alloc_(alloc) {}
+  explicit base_undirected_adjacency_list(const allocator_type& alloc)
+        : vertices_(alloc), vertex_alloc_(alloc), edge_alloc_(alloc) {}
 
   // Copy constructor - copies vertices and edges (derived class handles graph_value_)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
+  base_undirected_adjacency_list(const base_undirected_adjacency_list& other, const allocator_type& alloc);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
   base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
-- 
2.43.0


From becc6dbe0c4e0b34dfc2ed4ec40f29077107acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 67/77] fix: edges(g, u) and degree(g, u) no longer walk the
 edges of list- and set-based containers

---
 .../graph/adj_list/edge_descriptor_view.hpp   | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor_view.hpp b/include/graph/adj_list/edge_descriptor_view.hpp
index 07527fb..464abb8 100644
--- a/include/graph/adj_list/edge_descriptor_view.hpp
+++ b/include/graph/adj_list/edge_descriptor_view.hpp
@@ -112,7 +112,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (std::ranges::sized_range<Container>) {
+        size_ = static_cast<std::size_t>(std::ranges::size(container));
+      } else {
+        size_ = unknown_size;
+      }
     }
   }
 
@@ -137,7 +141,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (std::ranges::sized_range<const Container>) {
+        size_ = static_cast<std::size_t>(std::ranges::size(container));
+      } else {
+        size_ = unknown_size;
+      }
     }
   }
 
@@ -149,13 +157,22 @@ public:
 
   [[nodiscard]] constexpr const_iterator cend() const noexcept { return end(); }
 
-  // Size - O(1) for all iterator types (cached during construction)
-  [[nodiscard]] constexpr std::size_t size() const noexcept { return size_; }
+  // Size - O(1) (cached during construction), except for containers that don't know their size
+  // (std::forward_list), whose edges are counted on demand so that construction remains O(1)
+  [[nodiscard]] constexpr std::size_t size() const noexcept {
+    if constexpr (!std::random_access_iterator<EdgeIter>) {
+      if (size_ == unknown_size)
+        return static_cast<std::size_t>(std::distance(begin_, end_));
+    }
+    return size_;
+  }
 
   // Get the source vertex for this view
   [[nodiscard]] constexpr vertex_desc source() const noexcept { return source_; }
 
 private:
+  static constexpr std::size_t unknown_size = static_cast<std::size_t>(-1);
+
   edge_storage_type begin_{};
   edge_storage_type end_{};
   vertex_desc       source_{};
-- 
2.43.0


From bdcd452e1205d75b05eb5d5f29438b9670fbd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 68/77] fix: loading a few edges into a dynamic_graph no longer
 costs O(V)

---
 include/graph/container/dynamic_graph.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 8caff8d..2709b89 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1389,29 +1389,34 @@ public: // Load operations
           }
           // If adjacency edge container is vector we can reserve per-vertex capacity now.
           using edges_container_example = decltype(vertices_[0].edges());
+          // Counting the degrees costs O(V), so it's only done when there are at least as many edges.
           if constexpr (requires(edges_container_example c) { c.reserve(0); }) {
             // Compute out-degree counts per vertex id
-            std::vector<size_type> degrees(vertices_.size(), size_type{0});
-            for (auto const& e : projected) {
-              degrees[static_cast<size_t>(e.source_id)]++;
+            std::vector<size_type> degrees(projected.size() < vertices_.size() ? 0 : vertices_.size(), size_type{0});
+            if (!degrees.empty()) {
+              for (auto const& e : projected) {
+                degrees[static_cast<size_t>(e.source_id)]++;
+              }
             }
             for (size_t vid = 0; vid < degrees.size(); ++vid) {
               auto& ec = vertices_[vid].edges();
               if constexpr (requires { ec.reserve(degrees[vid]); }) {
-                if (degrees[vid])
+                if (degrees[vid] > ec.size()) // hash tables would shrink otherwise
                   ec.reserve(degrees[vid]);
               }
             }
             // Also reserve reverse edge capacity for bidirectional graphs
             if constexpr (Bidirectional) {
-              std::vector<size_type> in_degrees(vertices_.size(), size_type{0});
-              for (auto const& e : projected) {
-                in_degrees[static_cast<size_t>(e.target_id)]++;
+              std::vector<size_type> in_degrees(degrees.size(), size_type{0});
+              if (!in_degrees.empty()) {
+                for (auto const& e : projected) {
+                  in_degrees[static_cast<size_t>(e.target_id)]++;
+                }
               }
               for (size_t vid = 0; vid < in_degrees.size(); ++vid) {
                 auto& rc = vertices_[vid].in_edges();
                 if constexpr (requires { rc.reserve(in_degrees[vid]); }) {
-                  if (in_degrees[vid])
+                  if (in_degrees[vid] > rc.size())
                     rc.reserve(in_degrees[vid]);
                 }
               }
-- 
2.43.0


From f42977debf16bb05b69a0f438ef2cffc81197380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 69/77] fix: Dijkstra's and Prim's queues stay within O(V)
 entries

---
 .../algorithm/dijkstra_shortest_paths.hpp     | 37 ++++++++++++++-----
 include/graph/algorithm/mst.hpp               | 25 +++++++++----
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index 5583d8f..7a594e3 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -15,6 +15,7 @@
 #include "graph/graph.hpp"
 #include "graph/algorithm/traversal_common.hpp"
 
+#include <algorithm>
 #include <queue>
 #include <vector>
 #include <ranges>
@@ -111,7 +112,7 @@ using adj_list::index_adjacency_list;
  * - std::logic_error if internal invariant violation detected
  * 
  * **Remarks:**
- * - Uses std::priority_queue with lazy deletion (vertices can be re-inserted)
+ * - Uses a binary heap with lazy deletion (vertices can be re-inserted)
  * - For unweighted graphs, use default weight function (equivalent to BFS)
  * - For single target, consider A* with admissible heuristic
  * - Implementation based on Boost.Graph dijkstra_shortest_paths_no_init
@@ -192,8 +193,22 @@ constexpr void dijkstra_shortest_paths(
   // when a distance is improved later.
   using queue_entry = std::pair<distance_type, id_type>;
   auto qcompare     = [](const queue_entry& a, const queue_entry& b) { return a.first > b.first; };
-  using Queue       = std::priority_queue<queue_entry, std::vector<queue_entry>, decltype(qcompare)>;
-  Queue queue(qcompare);
+  std::vector<queue_entry> queue; // a heap ordered by qcompare
+
+  // An entry is superseded when its vertex is re-enqueued with a shorter distance
+  auto is_superseded = [&distances](const queue_entry& entry) {
+    return entry.first != distances[static_cast<size_t>(entry.second)];
+  };
+
+  auto enqueue = [&](id_type vid) {
+    // Drop the superseded entries when they outnumber the vertices, so the queue never exceeds O(V)
+    if (queue.size() > 2 * static_cast<size_t>(N)) {
+      std::erase_if(queue, is_superseded);
+      std::make_heap(queue.begin(), queue.end(), qcompare);
+    }
+    queue.emplace_back(distances[static_cast<size_t>(vid)], vid);
+    std::push_heap(queue.begin(), queue.end(), qcompare);
+  };
 
   // (The optimizer removes this loop if on_initialize_vertex() is empty.)
   if constexpr (has_on_initialize_vertex<G, Visitor>) {
@@ -211,8 +226,8 @@ constexpr void dijkstra_shortest_paths(
     if (source >= N || source < 0) {
       throw std::out_of_range(std::format("dijkstra_shortest_paths: source vertex id '{}' is out of range", source));
     }
-    queue.push({zero, static_cast<id_type>(source)});
     distances[static_cast<size_t>(source)] = zero; // mark source as discovered
+    enqueue(static_cast<id_type>(source));
     if constexpr (has_on_discover_vertex<G, Visitor>) {
       visitor.on_discover_vertex(g, *find_vertex(g, source));
     } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
@@ -222,10 +237,12 @@ constexpr void dijkstra_shortest_paths(
 
   // Main loop to process the queue
   while (!queue.empty()) {
-    const auto [entry_distance, uid] = queue.top();
-    queue.pop();
-    if (entry_distance != distances[static_cast<size_t>(uid)]) {
-      continue; // Superseded entry: uid was re-enqueued with a shorter distance
+    std::pop_heap(queue.begin(), queue.end(), qcompare);
+    const queue_entry entry = queue.back();
+    const id_type     uid   = entry.second;
+    queue.pop_back();
+    if (is_superseded(entry)) {
+      continue;
     }
     if constexpr (has_on_examine_vertex<G, Visitor>) {
       visitor.on_examine_vertex(g, *find_vertex(g, uid));
@@ -261,7 +278,7 @@ constexpr void dijkstra_shortest_paths(
           } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
             visitor.on_discover_vertex(g, vid);
           }
-          queue.push({distances[static_cast<size_t>(vid)], vid});
+          enqueue(vid);
         } else {
           // This is an indicator of a bug in the algorithm and should be investigated.
           throw std::logic_error(
@@ -273,7 +290,7 @@ constexpr void dijkstra_shortest_paths(
           if constexpr (has_on_edge_relaxed<G, Visitor>) {
             visitor.on_edge_relaxed(g, uv);
           }
-          queue.push({distances[static_cast<size_t>(vid)], vid}); // re-enqueue vid to re-evaluate its neighbors with a shorter path
+          enqueue(vid); // re-enqueue vid to re-evaluate its neighbors with a shorter path
         } else {
           if constexpr (has_on_edge_not_relaxed<G, Visitor>) {
             visitor.on_edge_not_relaxed(g, uv);
diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 4d689b9..04d320f 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -195,7 +195,7 @@
  * **Performance Notes:**
  * 
  * **Prim's Priority Queue:**
- * This implementation uses a binary heap (std::priority_queue) which provides O(E log V)
+ * This implementation uses a binary heap with lazy deletion, which provides O(E log V)
  * complexity. While Fibonacci heap implementations achieve better theoretical complexity
  * O(E + V log V), they have significantly higher constant factors and more complex
  * bookkeeping. In practice:
@@ -255,7 +255,9 @@
 #include "graph/edge_list/edge_list.hpp"
 #include "graph/views/edgelist.hpp"
 #include "graph/algorithm/traversal_common.hpp"
+#include <algorithm>
 #include <queue>
+#include <vector>
 #include <format>
 
 #ifndef GRAPH_MST_HPP
@@ -927,7 +929,7 @@ auto prim(G&&                   g,           // graph
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
   // Priority queue comparator: compare by edge weight (second element of tuple).
-  // std::priority_queue keeps the greatest element on top, so the arguments are swapped
+  // A std heap keeps the greatest element on top, so the arguments are swapped
   // to get the best edge first.
   auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
@@ -935,13 +937,14 @@ auto prim(G&&                   g,           // graph
   std::vector<bool> in_tree(N, false);
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
-  std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
-  Q.push({seed, distance[seed]}); // Start from seed vertex
+  std::vector<weighted_vertex> Q;
+  Q.emplace_back(seed, distance[seed]); // Start from seed vertex
 
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
-    auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
-    Q.pop();
+    std::pop_heap(Q.begin(), Q.end(), outer_compare);
+    auto uid = get<0>(Q.back()); // Extract vertex with minimum edge weight
+    Q.pop_back();
     if (in_tree[uid]) {
       continue; // Superseded entry: uid was added through a better edge
     }
@@ -952,7 +955,15 @@ auto prim(G&&                   g,           // graph
       // Relaxation: if edge weight is better than current distance to neighbor
       if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
-        Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
+        // Drop the superseded entries when they outnumber the vertices, so the queue never exceeds O(V)
+        if (Q.size() > 2 * N) {
+          std::erase_if(Q, [&](const weighted_vertex& entry) {
+            return in_tree[get<0>(entry)] || compare(distance[get<0>(entry)], get<1>(entry));
+          });
+          std::make_heap(Q.begin(), Q.end(), outer_compare);
+        }
+        Q.emplace_back(vid, distance[vid]); // Add/update neighbor in priority queue
+        std::push_heap(Q.begin(), Q.end(), outer_compare);
         predecessor[vid] = uid;       // Record edge uid→vid in MST
         weight[vid]      = w;         // Record edge weight
       }
-- 
2.43.0


From 4ef76317b5999dd225962718f9ab8b0b649ebdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 70/77] fix: find_vertex_edge uses the lookup of set and map
 edge containers

Finding an edge by its target scanned the whole edge container even when it is a set or a map,
for which the documentation promises O(log degree) or O(1).
---
 include/graph/container/dynamic_graph.hpp | 54 ++++++++++++++++++-----
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 2709b89..aefcb95 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -747,16 +747,50 @@ private: // CPO properties
     return edge_descriptor_view<edge_iter_t, vertex_iter_t, in_edge_tag>(in_edges_ref, u);
   }
 
-  // friend constexpr typename edges_type::iterator
-  // find_vertex_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) {
-  //   return std::ranges::find(g[uid].edges_,
-  //                            [&g, &vid](const edge_type& uv) -> bool { return target_id(g, uv) == vid; });
-  // }
-  // friend constexpr typename edges_type::const_iterator
-  // find_vertex_edge(const graph_type& g, vertex_id_type uid, vertex_id_type vid) {
-  //   return std::ranges::find(g[uid].edges_,
-  //                            [&g, &vid](const edge_type& uv) -> bool { return target_id(g, uv) == vid; });
-  // }
+  // Maps and sets of edges are searched with their own lookup instead of being scanned. A set needs an edge to
+  // look for, so the edge value must be default constructible, and must be ordered (or hashed) by target id.
+  template <class Edges>
+  static constexpr bool searchable_edges =
+        is_map_based_edge_container<Edges> ||
+        ((std::is_void_v<EV> || std::is_default_constructible_v<EV>) &&
+         (requires { requires std::same_as<typename Edges::key_compare, std::less<edge_type>>; } ||
+          requires {
+            requires std::same_as<typename Edges::hasher, std::hash<edge_type>>;
+            requires std::same_as<typename Edges::key_equal, std::equal_to<edge_type>>;
+          }));
+
+  template <typename Edges, typename U>
+  [[nodiscard]] static constexpr auto search_edge(Edges& edges_ref, const U& u, const vertex_id_type& vid) {
+    using edge_view_t = edge_descriptor_view<decltype(edges_ref.begin()), typename U::iterator_type>;
+    if constexpr (is_map_based_edge_container<std::remove_const_t<Edges>>)
+      return typename edge_view_t::edge_desc(edges_ref.find(vid), u);
+    else
+      return typename edge_view_t::edge_desc(edges_ref.find(edge_type(vid)), u);
+  }
+
+  template <typename U>
+  requires vertex_descriptor_type<U> && searchable_edges<edges_type>
+  [[nodiscard]] friend constexpr auto find_vertex_edge(graph_type& g, const U& u, const vertex_id_type& vid) {
+    return search_edge(u.inner_value(g).edges_, u, vid);
+  }
+
+  template <typename U>
+  requires vertex_descriptor_type<U> && searchable_edges<edges_type>
+  [[nodiscard]] friend constexpr auto find_vertex_edge(const graph_type& g, const U& u, const vertex_id_type& vid) {
+    return search_edge(u.inner_value(g).edges_, u, vid);
+  }
+
+  template <typename U, typename V>
+  requires vertex_descriptor_type<U> && vertex_descriptor_type<V> && searchable_edges<edges_type>
+  [[nodiscard]] friend constexpr auto find_vertex_edge(graph_type& g, const U& u, const V& v) {
+    return search_edge(u.inner_value(g).edges_, u, v.vertex_id());
+  }
+
+  template <typename U, typename V>
+  requires vertex_descriptor_type<U> && vertex_descriptor_type<V> && searchable_edges<edges_type>
+  [[nodiscard]] friend constexpr auto find_vertex_edge(const graph_type& g, const U& u, const V& v) {
+    return search_edge(u.inner_value(g).edges_, u, v.vertex_id());
+  }
 };
 
 
-- 
2.43.0


From f758cec94385817fc64aa950cb9587b7abc075f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 71/77] fix: iterators over a vertex's edges in
 undirected_adjacency_list can be swapped

The friend swap functions did not compile, and would have left the iterators' graphs behind.
---
 include/graph/container/undirected_adjacency_list.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index df464c7..87d006c 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -434,8 +434,9 @@ public:
     bool operator!=(const const_iterator& rhs) const noexcept;
 
     friend void swap(const_iterator& lhs, const_iterator& rhs) noexcept {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
 
     graph_type&       graph() { return *graph_; }
@@ -488,9 +489,8 @@ public:
     iterator& operator--();
     iterator  operator--(int);
 
-    friend void swap(iterator& lhs, iterator& rhs) {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+    friend void swap(iterator& lhs, iterator& rhs) noexcept {
+      swap(static_cast<const_iterator&>(lhs), static_cast<const_iterator&>(rhs));
     }
   }; // end iterator
 
-- 
2.43.0


From bd30f1de23443f9ad8c2182b4508ae4e6f7b9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 72/77] fix: undirected_adjacency_list edge iterators survive
 create_vertex()

They are documented to, but held an iterator into the vertex container, which dangles once it reallocates.
---
 .../detail/undirected_adjacency_list_impl.hpp |  2 +-
 .../container/undirected_adjacency_list.hpp   | 25 ++++++++++---------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index c5599ba..8a368d5 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1453,7 +1453,7 @@ typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edg
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
   auto&                g    = static_cast<graph_type&>(*this);
   edge_type*           uv   = &*pos;
-  vertex_iterator      u    = pos.u_;
+  vertex_iterator      u    = pos.vertex();
   vertex_edge_iterator next = pos.uv_;
   ++next;
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 87d006c..f153547 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -822,15 +822,16 @@ public: // Type Aliases
     using reference         = const value_type&;
 
   public:
-    const_edge_iterator(const graph_type& g, vertex_iterator u) : g_(&const_cast<graph_type&>(g)), u_(u) {
+    const_edge_iterator(const graph_type& g, vertex_iterator u)
+          : g_(&const_cast<graph_type&>(g)), u_(u - g_->vertices().begin()) {
       advance_vertex();
     }
     const_edge_iterator(const graph_type& g, const_vertex_iterator u)
-          : g_(&const_cast<graph_type&>(g)), u_(g_->vertices().begin() + (u - g.vertices().begin())) {
+          : g_(&const_cast<graph_type&>(g)), u_(u - g.vertices().begin()) {
       advance_vertex();
     }
     const_edge_iterator(const graph_type& g, vertex_iterator u, vertex_edge_iterator uv)
-          : g_(&const_cast<graph_type&>(g)), u_(u), uv_(uv) {}
+          : g_(&const_cast<graph_type&>(g)), u_(u - g_->vertices().begin()), uv_(uv) {}
 
     const_edge_iterator() noexcept                                 = default;
     const_edge_iterator(const const_edge_iterator& rhs) noexcept   = default;
@@ -854,10 +855,11 @@ public: // Type Aliases
     bool operator!=(const const_edge_iterator& rhs) const noexcept { return !operator==(rhs); }
 
   protected:
+    vertex_iterator vertex() const { return g_->vertices().begin() + u_; }
+
     void advance_edge() {
       // next edge for current vertex
-      vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
-      if (++uv_ != u_->edges_end(*g_, uid))
+      if (++uv_ != vertex()->edges_end(*g_, static_cast<vertex_id_type>(u_)))
         return;
 
       // find next vertex with edge(s)
@@ -866,19 +868,18 @@ public: // Type Aliases
     }
 
     void advance_vertex() {
-      // at exit, if u_ != g.vertices().end() then uv_ will refer to a valid edge
-      for (; u_ != g_->vertices().end(); ++u_) {
-        if (u_->num_edges() > 0) {
-          vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
-          uv_                = u_->edges_begin(*g_, uid);
+      // at exit, if u_ != size(g.vertices()) then uv_ will refer to a valid edge
+      for (; static_cast<size_t>(u_) != g_->vertices().size(); ++u_) {
+        if (vertex()->num_edges() > 0) {
+          uv_ = vertex()->edges_begin(*g_, static_cast<vertex_id_type>(u_));
           return;
         }
       }
     }
 
   protected:
-    graph_type*          g_;
-    vertex_iterator      u_;
+    graph_type*          g_ = nullptr;
+    difference_type      u_ = 0; // index of the vertex; an iterator wouldn't survive create_vertex()
     vertex_edge_iterator uv_;
 
     friend base_undirected_adjacency_list; // erase_edge() needs the position
-- 
2.43.0


From 40792af79300f42d37cafa379122ecfb54f63f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 73/77] fix: undirected_adjacency_list members that could not
 be used compile

edge_id, edge_front, neighbors_size and the constant neighbors failed to compile when called.
---
 .../detail/undirected_adjacency_list_impl.hpp       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 8a368d5..95834fe 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -761,7 +761,7 @@ template <typename EV,
           typename Alloc>
 typename ual_edge<EV, VV, GV, VId, VContainer, Alloc>::edge_id_type
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::edge_id(const graph_type& g) const noexcept {
-  return unordered_pair(list_owner_id(), list_target_id());
+  return edge_id_type(list_owner_id(), list_target_id());
 }
 
 
@@ -908,7 +908,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(graph_type& g) noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -919,7 +919,7 @@ template <typename EV,
           typename Alloc>
 const typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(const graph_type& g) const noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -1050,7 +1050,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbor_size_type
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors_size(const graph_type& g) const {
-  return size(edges(g));
+  return edges_.size();
 }
 
 template <typename EV,
@@ -1071,7 +1071,10 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::const_neighbor_range
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors(const graph_type& g, vertex_id_type uid) const {
-  return {const_neighbor_iterator(edges_.begin(g, uid)), const_neighbor_iterator(edges_.end(g, uid)), edges_.size()};
+  // Neighbor iterators, constant or not, hold a vertex_edge_iterator
+  vertex_edge_iterator first(g, uid, edges_.empty() ? nullptr : &edges_.front());
+  vertex_edge_iterator last(g, uid);
+  return {const_neighbor_iterator(first), const_neighbor_iterator(last), edges_.size()};
 }
 
 
-- 
2.43.0


From 214fdd04afcf0a711c10d9815c55a4a80eee7f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 74/77] fix: comparing and hashing edges no longer copies their
 ids inside noexcept functions

With ids that own memory (std::string), adding to or searching a set of edges copied both ids in a
noexcept comparison or hash, so that running out of memory there ended the program instead of
throwing std::bad_alloc.
---
 include/graph/container/dynamic_graph.hpp | 34 ++++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index aefcb95..abb05c0 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -217,12 +217,18 @@ public:
 public:
   constexpr vertex_id_type target_id() const { return target_id_; }
 
-private:
+protected:
   vertex_id_type target_id_ = vertex_id_type();
 
 private:
+  friend struct std::hash<edge_type>; // hashes target_id_ in place
+
   // target_id(g,uv) - ADL customization point for CPO
-  friend constexpr vertex_id_type target_id(const graph_type& g, const edge_type& uv) noexcept { return uv.target_id_; }
+  friend constexpr vertex_id_type
+  target_id(const graph_type& g,
+            const edge_type&  uv) noexcept(std::is_nothrow_copy_constructible_v<vertex_id_type>) {
+    return uv.target_id_;
+  }
 
   // target(g,uv) - returns the target vertex
   // friend constexpr vertex_type& target(graph_type& g, edge_type& uv) noexcept {
@@ -275,10 +281,12 @@ public:
 public:
   constexpr vertex_id_type source_id() const { return source_id_; }
 
-private:
+protected:
   vertex_id_type source_id_ = vertex_id_type();
 
 private:
+  friend struct std::hash<dynamic_in_edge<EV, VV, GV, VId, Bidirectional, Traits>>; // hashes source_id_ in place
+
   // source_id(g,uv), source(g)
   // friend constexpr vertex_id_type source_id(const graph_type& g, const edge_type& uv) noexcept { return uv.source_id_; }
 
@@ -420,10 +428,10 @@ public:
   // Comparison operators for ordered/unordered set containers
   // Compare by target_id only — edge value is intentionally excluded
   constexpr auto operator<=>(const dynamic_out_edge& rhs) const noexcept {
-    return base_target_type::target_id() <=> rhs.base_target_type::target_id();
+    return base_target_type::target_id_ <=> rhs.base_target_type::target_id_;
   }
   constexpr bool operator==(const dynamic_out_edge& rhs) const noexcept {
-    return base_target_type::target_id() == rhs.base_target_type::target_id();
+    return base_target_type::target_id_ == rhs.base_target_type::target_id_;
   }
 };
 
@@ -470,10 +478,10 @@ public:
   // Comparison operators for ordered/unordered set containers
   // Compare by target_id only
   constexpr auto operator<=>(const dynamic_out_edge& rhs) const noexcept {
-    return base_target_type::target_id() <=> rhs.base_target_type::target_id();
+    return base_target_type::target_id_ <=> rhs.base_target_type::target_id_;
   }
   constexpr bool operator==(const dynamic_out_edge& rhs) const noexcept {
-    return base_target_type::target_id() == rhs.base_target_type::target_id();
+    return base_target_type::target_id_ == rhs.base_target_type::target_id_;
   }
 };
 
@@ -526,10 +534,10 @@ public:
 
   // Compare by source_id (edge value intentionally excluded, consistent with dynamic_out_edge)
   constexpr auto operator<=>(const dynamic_in_edge& rhs) const noexcept {
-    return base_source_type::source_id() <=> rhs.base_source_type::source_id();
+    return base_source_type::source_id_ <=> rhs.base_source_type::source_id_;
   }
   constexpr bool operator==(const dynamic_in_edge& rhs) const noexcept {
-    return base_source_type::source_id() == rhs.base_source_type::source_id();
+    return base_source_type::source_id_ == rhs.base_source_type::source_id_;
   }
 };
 
@@ -566,10 +574,10 @@ public:
   constexpr dynamic_in_edge& operator=(dynamic_in_edge&&)      = default;
 
   constexpr auto operator<=>(const dynamic_in_edge& rhs) const noexcept {
-    return base_source_type::source_id() <=> rhs.base_source_type::source_id();
+    return base_source_type::source_id_ <=> rhs.base_source_type::source_id_;
   }
   constexpr bool operator==(const dynamic_in_edge& rhs) const noexcept {
-    return base_source_type::source_id() == rhs.base_source_type::source_id();
+    return base_source_type::source_id_ == rhs.base_source_type::source_id_;
   }
 };
 
@@ -2207,7 +2215,7 @@ template <class EV, class VV, class GV, class VId, bool Bidirectional, class Tra
 struct hash<graph::container::dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>> {
   [[nodiscard]] size_t
   operator()(const graph::container::dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>& edge) const noexcept {
-    return std::hash<VId>{}(edge.target_id());
+    return std::hash<VId>{}(edge.target_id_);
   }
 };
 
@@ -2220,7 +2228,7 @@ template <class EV, class VV, class GV, class VId, bool Bidirectional, class Tra
 struct hash<graph::container::dynamic_in_edge<EV, VV, GV, VId, Bidirectional, Traits>> {
   [[nodiscard]] size_t
   operator()(const graph::container::dynamic_in_edge<EV, VV, GV, VId, Bidirectional, Traits>& edge) const noexcept {
-    return std::hash<VId>{}(edge.source_id());
+    return std::hash<VId>{}(edge.source_id_);
   }
 };
 
-- 
2.43.0


From a1cfeb280c5c26be9f9fac6ee2ccafc8b4744a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 75/77] fix: inner_value compiles for edges of map-keyed vertex
 objects

---
 include/graph/adj_list/edge_descriptor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor.hpp b/include/graph/adj_list/edge_descriptor.hpp
index d6a47af..3fea4a4 100644
--- a/include/graph/adj_list/edge_descriptor.hpp
+++ b/include/graph/adj_list/edge_descriptor.hpp
@@ -426,7 +426,11 @@ public:
                            vertex_data.second;
                          }) {
       // Map pair case - .second is the vertex, get its edges
-      auto& edge_container = vertex_data.second;
+      auto& edge_container = [&]() -> decltype(auto) {
+        if constexpr (is_in_edge && requires { vertex_data.second.in_edges(); }) return (vertex_data.second.in_edges());
+        else if constexpr (requires { vertex_data.second.edges(); }) return (vertex_data.second.edges());
+        else return (vertex_data.second);
+      }();
       // Simple type: just the target ID, return it (no separate property)
       if constexpr (std::integral<edge_value_type>) {
         if constexpr (std::random_access_iterator<EdgeIter>) {
@@ -618,7 +622,11 @@ public:
                            vertex_data.second;
                          }) {
       // Map pair case - .second is the vertex, get its edges
-      const auto& edge_container = vertex_data.second;
+      const auto& edge_container = [&]() -> decltype(auto) {
+        if constexpr (is_in_edge && requires { vertex_data.second.in_edges(); }) return (vertex_data.second.in_edges());
+        else if constexpr (requires { vertex_data.second.edges(); }) return (vertex_data.second.edges());
+        else return (vertex_data.second);
+      }();
       // Simple type: just the target ID, return it (no separate property)
       if constexpr (std::integral<edge_value_type>) {
         if constexpr (std::random_access_iterator<EdgeIter>) {
-- 
2.43.0


From ddcae453efec29d8403c2ad11b00dfbdaaac0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 76/77] fix: undirected_adjacency_list::resize_vertices(n,
 value) compiles

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 95834fe..e6d4ec8 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1537,7 +1537,7 @@ template <typename EV,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
                                                                                          const vertex_value_type& val) {
-  this->vertices_.resize(n, val);
+  this->vertices_.resize(n, vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size()), val));
 }
 
 
-- 
2.43.0


From cc9fd2a022ae746ec5372558cd2bccb90f10541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 77/77] fix: find_vertex on a compressed_graph with a signed
 vertex id compiles with clang

---
 include/graph/container/compressed_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index facd8d3..20b3288 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1258,7 +1258,7 @@ public: // Friend functions
 
     // Construct iterator directly from the vertex ID (which is the storage_type)
     // Cast to vertex_id_type to avoid warnings when uid is a larger integral type (e.g., size_t)
-    return vertex_desc_iterator{static_cast<vertex_id_type>(uid)};
+    return vertex_desc_iterator{static_cast<std::size_t>(static_cast<vertex_id_type>(uid))};
   }
 
   /**
-- 
2.43.0

