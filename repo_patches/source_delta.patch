From 3a6b1155c8f78e40a5d3da4d464a0a5ebf974638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 01/51] fix: bfs_v2 read an uninitialised frontier bitmap

The two-argument AtomicBitVector(n, false) constructor skips clearing, so the
first bottom-up step could see vertices that were never put in the frontier.
---
 include/nwgraph/experimental/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 9451f0d..13be7fb 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -574,7 +574,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::vector<Vector> nextfrontier(n);
   frontier.reserve(N);
   frontier.push_back(root);
-  nw::graph::AtomicBitVector front(N, false), cur(N);
+  nw::graph::AtomicBitVector front(N), cur(N);
   size_t edges_to_check = out_graph.to_be_indexed_.size();
   size_t scout_count = out_graph[root].size();
   
-- 
2.43.0


From 9570286d9a1a09066ed566f7d414bd9b80ad1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 02/51] fix: adjacency built from an edge list had one row too
 many

The constructors asked for num_vertices + 1 rows while the fill sizes the row
index for num_vertices, so begin()..end() (and every range built on it) ran
past the end of the index array.
---
 include/nwgraph/adjacency.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 5d9c4c3..27425e1 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -92,7 +92,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                              policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -101,7 +101,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                                policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -234,7 +234,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
 
@@ -246,7 +246,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
-- 
2.43.0


From 6b52f600008fb6057bbd6c6c66d6e38576851721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/51] fix: afforest labelled a vertex past the end of the
 graph

The label vector had size() + 1 entries and every loop over it indexed the graph
with the extra one; the transpose is now consulted only for vertices it has.
---
 include/nwgraph/algorithms/connected_components.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/algorithms/connected_components.hpp b/include/nwgraph/algorithms/connected_components.hpp
index 514bb32..4697ba0 100644
--- a/include/nwgraph/algorithms/connected_components.hpp
+++ b/include/nwgraph/algorithms/connected_components.hpp
@@ -57,9 +57,9 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
   for (auto&& [n] : plain_range(graph)) {
     label_to_source[comp[n]] = n;
   }
-  std::vector<bool>   visited(graph.size() + 1);
+  std::vector<bool>   visited(graph.size());
   std::vector<NodeID> frontier;
-  frontier.reserve(graph.size() + 1);
+  frontier.reserve(graph.size());
   for (auto&& [curr_label, source] : label_to_source) {
     frontier.clear();
     frontier.push_back(source);
@@ -98,7 +98,7 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
     }
   }
   if (0 < i) {
-    std::cout << "unvisited " << i << " " << graph.size() + 1 << " ";
+    std::cout << "unvisited " << i << " " << graph.size() << " ";
     return false;
   }
   return true;
@@ -196,7 +196,7 @@ static T sample_frequent_element(const Vector& comp, size_t num_samples = 1024)
 template <typename Execution, adjacency_list_graph Graph1, adjacency_list_graph Graph2>
 static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph, const size_t neighbor_rounds = 2) {
   using vertex_id_type = vertex_id_t<Graph1>;
-  std::vector<std::atomic<vertex_id_type>> comp(graph.size() + 1);
+  std::vector<std::atomic<vertex_id_type>> comp(graph.size());
   std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type n) { comp[n] = n; });
   for (size_t r = 0; r < neighbor_rounds; ++r) {
     std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type u) {
@@ -218,7 +218,7 @@ static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph
       }
     }
 
-    if (t_graph.size() != 0) {
+    if (u < t_graph.size()) {
       for (auto&& elt : t_graph[u]) {
         auto v = target(t_graph, elt);
         link(u, v, comp);
-- 
2.43.0


From 9a22ac46cf1ee9367607ab2f91680d76b76f2c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 04/51] fix: delta_stepping_m1 visited nothing because its
 queue's end() was begin()

---
 include/nwgraph/algorithms/delta_stepping.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index c4f2585..0c8a39c 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -47,9 +47,9 @@ class _priority_queue : public std::priority_queue<T, Container, Compare> {
 public:
   explicit _priority_queue(const Compare& compare = Compare(), const Container& cont = Container()) : base(compare, cont) {}
   auto begin() { return base::c.begin(); }
-  auto end() { return base::c.begin(); }
+  auto end() { return base::c.end(); }
   auto begin() const { return base::c.begin(); }
-  auto end() const { return base::c.begin(); }
+  auto end() const { return base::c.end(); }
 };
 
 template <class distance_t, adjacency_list_graph Graph, class Id, class Weight>
-- 
2.43.0


From 939304b12afd44fcff15443b2b02d24f819e0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 05/51] fix: delta stepping tested an uninitialised flag when a
 relaxation did not improve

With a garbage value the vertex was put into a bucket again although nothing changed.
---
 include/nwgraph/algorithms/delta_stepping.hpp              | 2 +-
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 0c8a39c..12d21cb 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -186,7 +186,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 33580d0..194faf3 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -163,7 +163,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -222,7 +222,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -284,7 +284,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0


From c6d45cd4650b71957bacf5927265455ef2881016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:32 +0000
Subject: [PATCH 06/51] fix: delta_stepping_v8 pushed into buckets another
 thread was still constructing

---
 .../experimental/algorithms/delta_stepping.hpp   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 194faf3..aca4dad 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -90,7 +90,9 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     Weight weight = [](auto& e) -> auto& { return std::get<1>(e); }) {
   Id                                                 N = num_vertices(graph);
   std::vector<std::atomic<distance_t>>               tdist(N);
-  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(1);
+  tbb::queuing_mutex                                 lock;
+  std::atomic<std::size_t>                           size = 1;
+  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(size);
   std::size_t                                        top_bin = 0;
   for (auto&& d : tdist) {
     d = std::numeric_limits<distance_t>::max();
@@ -112,9 +114,15 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
       }
       if (changed_dist) {
         std::size_t dest_bin = new_distance / delta;
-        // if (dest_bin >= bins.size()) {
-        bins.grow_to_at_least(dest_bin + 1);
-        // }
+        // Growing does not wait for elements that another thread is still
+        // constructing, so it has to be serialized (see delta_stepping_v9).
+        if (nw::graph::acquire(size) < dest_bin + 1) {
+          tbb::queuing_mutex::scoped_lock _(lock);
+          if (nw::graph::acquire(size) < dest_bin + 1) {
+            bins.grow_to_at_least(dest_bin + 1);
+            nw::graph::release(size, dest_bin + 1);
+          }
+        }
         bins[dest_bin].push_back(j);
       }
     }
-- 
2.43.0


From 51364fb692a514699f50be63cccb87b456515720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 07/51] fix: delta_stepping_v6 relaxed edges in parallel
 without atomics

Concurrent relaxations of one vertex could leave the longer distance behind and
resized the bucket array under each other.
---
 .../algorithms/delta_stepping.hpp             | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index aca4dad..9cf67bf 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -44,25 +44,34 @@ namespace graph {
 // Inspired by gapbs implementation
 template <class distance_t, adjacency_list_graph Graph, class Id, class T>
 auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
-  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(1);
+  tbb::queuing_mutex                                 lock;
+  std::atomic<std::size_t>                           size = 1;
+  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(size);
   std::size_t                                        top_bin = 0;
 
-  std::vector<distance_t> tdist(num_vertices(graph));
+  std::vector<std::atomic<distance_t>> tdist(num_vertices(graph));
   tbb::parallel_for_each(tdist, [&](auto&& d) { d = std::numeric_limits<distance_t>::max(); });
 
   bins[top_bin].push_back(source);
   tdist[source] = 0;
 
   auto relax = [&](Id i, Id j, auto wt) {
-    auto new_distance = tdist[i] + wt;
-    if (new_distance < tdist[j]) {
-      tdist[j]        = new_distance;
-      size_t dest_bin = new_distance / delta;
-      if (dest_bin >= bins.size()) {
-        bins.resize(dest_bin + 1);
+    distance_t new_distance = nw::graph::acquire(tdist[i]) + wt;
+    distance_t old_distance = nw::graph::acquire(tdist[j]);
+    bool       success      = false;
+    while (new_distance < old_distance && !(success = nw::graph::cas(tdist[j], old_distance, new_distance))) {
+    }
+    if (!success) return;
+
+    size_t dest_bin = new_distance / delta;
+    if (nw::graph::acquire(size) < dest_bin + 1) {
+      tbb::queuing_mutex::scoped_lock _(lock);
+      if (nw::graph::acquire(size) < dest_bin + 1) {
+        bins.grow_to_at_least(dest_bin + 1);
+        nw::graph::release(size, dest_bin + 1);
       }
-      bins[dest_bin].push_back(j);
     }
+    bins[dest_bin].push_back(j);
   };
 
   tbb::concurrent_vector<Id> frontier;
-- 
2.43.0


From d0fe09831fab603b220bafb1d5b53a6ee866dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 08/51] fix: betweenness centrality divided integral path
 counts as integers

---
 include/nwgraph/algorithms/betweenness_centrality.hpp           | 2 +-
 .../nwgraph/experimental/algorithms/betweenness_centrality.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index d065758..947d9af 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -303,7 +303,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
                 for (auto&& elt : graph[u]) {
                   auto&& v = target(graph, elt);
                   if (succ.get(&v - &edges)) {
-                    delta += path_counts[u] / path_counts[v] * (1.0f + deltas[v]);
+                    delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1.0f + deltas[v]);
                   }
                 }
                 nw::graph::fetch_add(bc[u], deltas[u] = delta);
diff --git a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
index b5188f6..8accfbc 100644
--- a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
@@ -1615,7 +1615,7 @@ auto bc2_v4(const Graph& graph, const std::vector<typename Graph::vertex_id_type
             auto&& v = target(graph, *x);
             //auto&& v = std::get<0>(*x);
             if (succ.get(&v - &edges)) {
-              delta += path_counts[u] / path_counts[v] * (1 + deltas[v]);
+              delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1 + deltas[v]);
             }
           }
           deltas[u] = delta;
-- 
2.43.0


From 44caa119326e6d2f0cd99391e54745518c93f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 09/51] fix: bc2_v2 accumulated path counts in parallel without
 atomics

---
 .../nwgraph/experimental/algorithms/betweenness_centrality.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
index 8accfbc..15731a3 100644
--- a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
@@ -1404,7 +1404,7 @@ auto bc2_v2(const Graph& graph, const std::vector<typename Graph::vertex_id_type
               ++count;
             }
             if (depths[w] == depth) {
-              path_counts[w] += path_counts[v];
+              nw::graph::fetch_add(path_counts[w], path_counts[v]);
               P[w].push_back(v);
             }
           }
-- 
2.43.0


From 09dc433afbebc32fddb4a1ef37903dd07b25130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 10/51] fix: sorting neighbor lists detached edge attributes
 from their edges

---
 include/nwgraph/containers/compressed.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 70bf95a..32a2ddb 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -416,10 +416,12 @@ public:    // fixme
   */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void sort_to_be_indexed(ExecutionPolicy&& ex_policy = {}) {
-    auto s = std::get<0>(to_be_indexed_).begin();
+    // sort whole entries, so that the attributes of an edge move with its neighbor id
+    auto s = to_be_indexed_.begin();
 
     for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
-      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1],
+                [](auto&& a, auto&& b) { return std::get<0>(a) < std::get<0>(b); });
     }
 
     if (g_debug_compressed) {
-- 
2.43.0


From 5cacb1624d206f03948f9ca821978b77873c5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 11/51] fix: permute_by_degree moved neighborhoods by the
 inverse of the permutation

---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 32a2ddb..471a672 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -493,8 +493,8 @@ public:    // fixme
     // before the computation, new_indices stores the degree of each vertex (with new id)
     std::inclusive_scan(ex_policy, new_indices.begin(), new_indices.end(), new_indices.begin());
     //7. Permute each neighborhood of each vertex in to_be_indexed_ to their new place
-    // based on the new_id_perm
-    to_be_indexed_.permute(indices_, new_indices, new_id_perm);
+    // based on perm: the new row i holds the neighborhood of the old row perm[i]
+    to_be_indexed_.permute(indices_, new_indices, perm);
 
     //8. Overwrite the old indices_ with new_indices
     indices_ = std::move(new_indices);
-- 
2.43.0


From ef443df2fabd0e60ccf363bc6c30824351e47208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 12/51] fix: struct_of_arrays equality read past the end of the
 shorter operand

---
 include/nwgraph/containers/soa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 18de682..652cbc1 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -334,7 +334,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   bool operator==(struct_of_arrays& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return std::equal(std::execution::par, begin(), end(), a.begin(), a.end());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From 9fcce68163505b850098095d005ee12ab25abb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 13/51] fix: permute_by_degree did not compile with its default
 policy

---
 include/nwgraph/containers/compressed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 471a672..7ae48d2 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -452,7 +452,7 @@ public:    // fixme
   std::vector<index_t> permute_by_degree(const std::string& direction = "descending", ExecutionPolicy&& ex_policy = {}) {
     //1. get the degrees of all the vertices
     size_t                   n = indices_.size() - 1;
-    std::vector              degs = degrees<ExecutionPolicy>(ex_policy);
+    std::vector              degs = degrees(ex_policy);
     //2. populate permutation with vertex id
     std::vector<index_t> perm(n);
     tbb::parallel_for(tbb::blocked_range(0ul, n), [&](auto&& r) {
-- 
2.43.0


From b994abca5cc6448b6421880e3bbe645a87f8c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 14/51] fix: splitting a vertex range gave two copies of the
 whole range

---
 include/nwgraph/adaptors/vertex_range.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 4a178cd..2d0c8dd 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -88,7 +88,9 @@ public:
   vertex_range(vertex_range&&)      = default;
 
   vertex_range(vertex_range& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.end_) {}
+      : begin_(rhs.begin_ + rhs.size() / 2), end_(rhs.end_) {
+    rhs.end_ = begin_;
+  }
 
   counting_iterator<vertex_id_type> begin() const { return begin_; }
   counting_iterator<vertex_id_type> end() const { return end_; }
@@ -97,7 +99,7 @@ public:
   bool empty() const { return size() == 0; }
 
   /// Runtime check to see if the range is divisible.
-  bool is_divisible() const { return begin_ <= end_; }
+  bool is_divisible() const { return size() > 1; }
 };  // vertex_range
 
 }    // namespace graph
-- 
2.43.0


From f9a1261e49aa543ee3aca7cf0c10c36989d406d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 15/51] fix: parallel_reduce counted its initial value once per
 stolen subrange

---
 include/nwgraph/util/parallel_for.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/util/parallel_for.hpp b/include/nwgraph/util/parallel_for.hpp
index 728075b..0182a0c 100644
--- a/include/nwgraph/util/parallel_for.hpp
+++ b/include/nwgraph/util/parallel_for.hpp
@@ -17,6 +17,7 @@
 #define NW_GRAPH_PARALLEL_FOR_HPP
 
 #include "nwgraph/util/traits.hpp"
+#include <optional>
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 
@@ -125,9 +126,26 @@ void parallel_for(Range&& range, Op&& op) {
 template <class Range, class Op, class Reduce, class T>
 auto parallel_reduce(Range&& range, Op&& op, Reduce&& reduce, T init) {
   if (range.is_divisible()) {
-    return tbb::parallel_reduce(
-        std::forward<Range>(range), init,
-        [&](auto&& sub, auto partial) { return parallel_for_sequential(std::forward<decltype(sub)>(sub), op, reduce, partial); }, reduce);
+    // Every body of the reduction starts out empty, so that `init` is reduced
+    // exactly once no matter how often the range is split.
+    auto partial = tbb::parallel_reduce(
+        std::forward<Range>(range), std::optional<T>(),
+        [&](auto&& sub, std::optional<T> partial) {
+          for (auto &&i = sub.begin(), e = sub.end(); i != e; ++i) {
+            if (partial) {
+              partial = reduce(*partial, parallel_for_inner(op, i));
+            } else {
+              partial = T(parallel_for_inner(op, i));
+            }
+          }
+          return partial;
+        },
+        [&](std::optional<T> a, std::optional<T> b) {
+          if (!a) return b;
+          if (b) a = reduce(*a, *b);
+          return a;
+        });
+    return partial ? T(reduce(init, *partial)) : init;
   } else {
     return parallel_for_sequential(std::forward<Range>(range), std::forward<Op>(op), std::forward<Reduce>(reduce), init);
   }
-- 
2.43.0


From 173b7847c4421f3c10e3b044432b5021617c1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 16/51] fix: brandes_bc ignored exceptions of its workers and
 returned partial scores

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index 947d9af..768c89f 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -315,7 +315,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
   }
 
   for (auto&& f : futures) {
-    f.wait();
+    f.get();
   }
 
   if (normalize) {
-- 
2.43.0


From c475d7ea0bf21015b9ad2232780b55c645c8a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 17/51] fix: brandes_bc did not compile for double scores

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index 768c89f..d20c96b 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -319,7 +319,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
   }
 
   if (normalize) {
-    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), 0.0f, nw::graph::max{});
+    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), score_t(0), nw::graph::max{});
     std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
   }
   return bc;
-- 
2.43.0


From 847cc0a84017d89d75c06bac22b5336c9b3dafd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 18/51] fix: moving an AtomicBitVector leaked the bitmap
 assigned to

---
 include/nwgraph/util/AtomicBitVector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/util/AtomicBitVector.hpp b/include/nwgraph/util/AtomicBitVector.hpp
index 86d1b29..d5e2f3d 100644
--- a/include/nwgraph/util/AtomicBitVector.hpp
+++ b/include/nwgraph/util/AtomicBitVector.hpp
@@ -69,8 +69,9 @@ public:
 
   /// The move assignment operator needs to be explicit.
   AtomicBitVector& operator=(AtomicBitVector&& rhs) {
-    bits_ = std::exchange(rhs.bits_, 0);
-    data_ = std::exchange(rhs.data_, nullptr);
+    AtomicBitVector tmp(std::move(rhs));
+    std::swap(bits_, tmp.bits_);
+    std::swap(data_, tmp.data_);
     return *this;
   }
 
-- 
2.43.0


From ad64740dedb23a66eab102cd5cb3cf3b36c0e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 19/51] fix: the set bits of a bitmap could not be reduced over
 in parallel

---
 include/nwgraph/util/AtomicBitVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/util/AtomicBitVector.hpp b/include/nwgraph/util/AtomicBitVector.hpp
index d5e2f3d..abcbad7 100644
--- a/include/nwgraph/util/AtomicBitVector.hpp
+++ b/include/nwgraph/util/AtomicBitVector.hpp
@@ -232,8 +232,8 @@ public:
     non_zero_range(non_zero_range& a, tbb::split)
         : data_(a.data_), n_(a.n_), begin_(a.begin_), end_(a.begin_ += a.size() / 2), cutoff_(a.cutoff_) {}
 
-    non_zero_iterator begin() { return {data_, n_, begin_}; }
-    non_zero_iterator end() { return {data_, n_, end_}; }
+    non_zero_iterator begin() const { return {data_, n_, begin_}; }
+    non_zero_iterator end() const { return {data_, n_, end_}; }
 
     std::size_t size() const { return end_ - begin_; }
     bool        empty() const { return size() == 0; }
-- 
2.43.0


From 01e52e99d34ab52355ec906d95c0408e2f23fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 20/51] fix: deserializing a compressed graph overwrote its
 index array's header

---
 include/nwgraph/adjacency.hpp             |  2 +-
 include/nwgraph/containers/compressed.hpp | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 27425e1..e208427 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -278,7 +278,7 @@ public:
    * 
    * @param outfile_name The output file name.
    */
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     bipartite_graph_base::serialize(out_file);
     base::serialize(out_file);
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 7ae48d2..916daee 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -300,31 +300,34 @@ public:    // fixme
     }
   }
 
-  void serialize(std::ostream& outfile) {
+  void serialize(std::ostream& outfile) const {
+    size_t n       = N_;    // stored as a size_t, whatever the width of index_t
     size_t el_size = sizeof(indices_[0]);
     size_t st_size = indices_.size();
 
     outfile.write(reinterpret_cast<const char*>(magic_), sizeof(magic_));
-    outfile.write(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    outfile.write(reinterpret_cast<const char*>(&n), sizeof(size_t));
 
-    outfile.write(reinterpret_cast<char*>(&st_size), sizeof(size_t));
-    outfile.write(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-    outfile.write(reinterpret_cast<char*>(indices_.data()), st_size * el_size);
+    outfile.write(reinterpret_cast<const char*>(&st_size), sizeof(size_t));
+    outfile.write(reinterpret_cast<const char*>(&el_size), sizeof(size_t));
+    outfile.write(reinterpret_cast<const char*>(indices_.data()), st_size * el_size);
     to_be_indexed_.serialize(outfile);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
   }
 
   void deserialize(std::istream& infile) {
     char   spell[sizeof(magic_) + 1];
+    size_t n       = -1;
     size_t el_size = -1;
     size_t st_size = -1;
 
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic_));
-    infile.read(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    infile.read(reinterpret_cast<char*>(&n), sizeof(size_t));
+    N_ = n;
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-- 
2.43.0


From d526de580538c9ee10ac98b3de5d381a8c792561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:04 +0000
Subject: [PATCH 21/51] fix: failed or mismatched serialization of graphs went
 unnoticed

---
 include/nwgraph/adjacency.hpp             |  5 +++++
 include/nwgraph/containers/aos.hpp        | 10 +++++++++-
 include/nwgraph/containers/compressed.hpp | 10 +++++++++-
 include/nwgraph/containers/soa.hpp        | 13 ++++++++++++-
 include/nwgraph/edge_list.hpp             |  7 +++++++
 include/nwgraph/graph_base.hpp            |  4 ++++
 6 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index e208427..f626eab 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -24,6 +24,7 @@
 #include "nwgraph/build.hpp"
 
 #include <concepts>
+#include <stdexcept>
 
 #include "nwgraph/graph_concepts.hpp"
 
@@ -159,6 +160,8 @@ public:
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     unipartite_graph_base::serialize(out_file);
     base::serialize(out_file);
+    out_file.close();
+    if (!out_file) throw std::runtime_error("cannot write " + outfile_name);
   }
 
   /**
@@ -282,6 +285,8 @@ public:
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     bipartite_graph_base::serialize(out_file);
     base::serialize(out_file);
+    out_file.close();
+    if (!out_file) throw std::runtime_error("cannot write " + outfile_name);
   }
 
   /**
diff --git a/include/nwgraph/containers/aos.hpp b/include/nwgraph/containers/aos.hpp
index 2c1dc92..02a0a51 100644
--- a/include/nwgraph/containers/aos.hpp
+++ b/include/nwgraph/containers/aos.hpp
@@ -36,6 +36,8 @@
 #include <istream>
 #include <iterator>
 #include <ostream>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #if defined(CL_SYCL_LANGUAGE_VERSION)
@@ -110,9 +112,11 @@ public:
     outfile.write(reinterpret_cast<const char*>(base::data()), st_size * el_size);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
+    out_file.close();
+    if (!out_file) throw std::runtime_error("cannot write " + outfile_name);
   }
 
   void deserialize(std::istream& infile) {
@@ -121,8 +125,12 @@ public:
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
+    if (!infile || el_size != sizeof(std::tuple<Attributes...>)) {
+      throw std::runtime_error("array_of_structs: truncated data or data of another type");
+    }
     base::resize(st_size);
     infile.read(reinterpret_cast<char*>(base::data()), st_size * el_size);
+    if (!infile) throw std::runtime_error("array_of_structs: truncated data");
   }
 
   void deserialize(const std::string& infile_name) {
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 916daee..ebb4388 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -31,6 +31,8 @@
 #include <iostream>
 #include <istream>
 #include <numeric>
+#include <stdexcept>
+#include <string>
 
 #if defined(CL_SYCL_LANGUAGE_VERSION)
 #include <dpstd/algorithm>
@@ -317,6 +319,8 @@ public:    // fixme
   void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
+    out_file.close();
+    if (!out_file) throw std::runtime_error("cannot write " + outfile_name);
   }
 
   void deserialize(std::istream& infile) {
@@ -327,12 +331,16 @@ public:    // fixme
 
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic_));
     infile.read(reinterpret_cast<char*>(&n), sizeof(size_t));
-    N_ = n;
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
+    if (!infile || !std::equal(magic_, magic_ + sizeof(magic_), spell) || el_size != sizeof(index_t)) {
+      throw std::runtime_error("indexed_struct_of_arrays: truncated data or data of another type");
+    }
+    N_ = n;
     indices_.resize(st_size);
     infile.read(reinterpret_cast<char*>(indices_.data()), st_size * el_size);
+    if (!infile) throw std::runtime_error("indexed_struct_of_arrays: truncated data");
     to_be_indexed_.deserialize(infile);
   }
 
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 652cbc1..daf65cf 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -38,6 +38,8 @@
 #include <istream>
 #include <iterator>
 #include <ostream>
+#include <stdexcept>
+#include <string>
 #include <tuple>
 #include <utility>
 #include <vector>
@@ -283,7 +285,11 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     size_t el_size = -1;
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
+    if (!infile || st_size != vs.size() || el_size != sizeof(vs[0])) {
+      throw std::runtime_error("struct_of_arrays: truncated data or data of another type");
+    }
     infile.read(reinterpret_cast<char*>(vs.data()), st_size * el_size);
+    if (!infile) throw std::runtime_error("struct_of_arrays: truncated data");
   }
 
   void serialize(std::ostream& outfile) const {
@@ -294,9 +300,11 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     std::apply([&](auto&... vs) { (serialize(outfile, vs), ...); }, *this);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
+    out_file.close();
+    if (!out_file) throw std::runtime_error("cannot write " + outfile_name);
   }
 
   void deserialize(std::istream& infile) {
@@ -304,6 +312,9 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     size_t el_size = -1;
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
+    if (!infile || el_size != std::tuple_size<storage_type>::value) {
+      throw std::runtime_error("struct_of_arrays: truncated data or data of another type");
+    }
     resize(st_size);
     std::apply([&](auto&... vs) { (deserialize(infile, vs), ...); }, *this);
   }
diff --git a/include/nwgraph/edge_list.hpp b/include/nwgraph/edge_list.hpp
index e284ebb..1a8fd1f 100644
--- a/include/nwgraph/edge_list.hpp
+++ b/include/nwgraph/edge_list.hpp
@@ -37,6 +37,8 @@
 #include <concepts>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
+#include <string>
 #include <tuple>
 #include <type_traits>
 
@@ -205,6 +207,8 @@ public:
   void serialize(const std::string& filename) const {
     std::ofstream outfile(filename, std::ofstream::binary);
     serialize(outfile);
+    outfile.close();
+    if (!outfile) throw std::runtime_error("cannot write " + filename);
   }
 
   /**
@@ -217,6 +221,9 @@ public:
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic));
     directedness d = edge_directedness;
     infile.read(reinterpret_cast<char*>(&d), sizeof(d));
+    if (!infile || !std::equal(magic, magic + sizeof(magic), spell)) {
+      throw std::runtime_error("index_edge_list: truncated data or data of another type");
+    }
     if (d != edge_directedness) {
       std::cout << std::string("Warning: Expected directedness ") + std::to_string((int)edge_directedness) + " but got " +
                        std::to_string((int)d)
diff --git a/include/nwgraph/graph_base.hpp b/include/nwgraph/graph_base.hpp
index b19b5fe..884b7ab 100644
--- a/include/nwgraph/graph_base.hpp
+++ b/include/nwgraph/graph_base.hpp
@@ -18,6 +18,8 @@
 #include <array>
 #include <cstddef>
 #include <istream>
+#include <ostream>
+#include <stdexcept>
 
 namespace nw {
 namespace graph {
@@ -83,6 +85,7 @@ public:
     infile.read(reinterpret_cast<char*>(&N), sizeof(size_t));
     vertex_cardinality[0] = N;
     infile.read(reinterpret_cast<char*>(&is_open), sizeof(bool));
+    if (!infile) throw std::runtime_error("graph_base: truncated data");
   }
 
 protected:
@@ -121,6 +124,7 @@ public:
     vertex_cardinality[0] = N0;
     vertex_cardinality[1] = N1;
     infile.read(reinterpret_cast<char*>(&is_open), sizeof(bool));
+    if (!infile) throw std::runtime_error("graph_base: truncated data");
   }
 
 protected:
-- 
2.43.0


From d7de32d465646ed6a6f39e471f7b7db6acb448d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 22/51] fix: make_adjacency and make_biadjacency with sizes did
 not compile

---
 include/nwgraph/adjacency.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index f626eab..8fbcefc 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -188,7 +188,7 @@ auto make_adjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_adjacency(edge_list_t& el, u_integral n, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   adjacency<idx> adj(n);
-  fill<idx>(el, adj, edge_directedness, policy);
+  fill<idx>(el, adj, edge_directedness, false, policy);
   return adj;
 }
 
@@ -313,7 +313,7 @@ auto make_biadjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_biadjacency(edge_list_t& el, u_integral n0, u_integral n1, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   biadjacency<idx> adj(n0, n1);
-  fill_biadjacency<idx>(el, adj, policy);
+  fill_biadjacency<idx>(el, adj, false, policy);
   return adj;
 }
 
-- 
2.43.0


From d1f2667add3594a0b8204cd518d01c936ffb58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/51] fix: an adjacency with more vertices than its edge list
 had rows past the end of its index

---
 include/nwgraph/build.hpp                 | 13 +++++++------
 include/nwgraph/containers/compressed.hpp |  8 ++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b9125f2..463edac 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -210,6 +210,7 @@ template <int idx, edge_list_graph edge_list_t, adjacency_list_graph adjacency_t
 void fill_directed(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&& policy = {}) {
 
   auto degree = degrees<idx>(el);
+  degree.resize(N);    // vertices past the last one of the edge list have no edges
 
   cs.indices_.resize(N + 1);
   cs.indices_[0] = 0;
@@ -343,9 +344,9 @@ void fill_undirected(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&&
 template <int idx, edge_list_graph edge_list_t, adjacency_list_graph adjacency_t, class ExecutionPolicy = default_execution_policy>
 auto fill(edge_list_t& el, adjacency_t& cs, bool sort_adjacency = false, ExecutionPolicy&& policy = {}) {
   if constexpr (edge_list_t::edge_directedness == nw::graph::directedness::directed) {
-    fill_directed<idx>(el, num_vertices(el), cs, policy);
+    fill_directed<idx>(el, std::max<size_t>(num_vertices(el), cs.size()), cs, policy);
   } else {    // undirected -- this cannot be a bipartite graph
-    fill_undirected<idx>(el, num_vertices(el), cs, policy);
+    fill_undirected<idx>(el, std::max<size_t>(num_vertices(el), cs.size()), cs, policy);
   }
   if (sort_adjacency) {
     //make adjacency sorted
@@ -357,9 +358,9 @@ auto fill(edge_list_t& el, adjacency_t& cs, bool sort_adjacency = false, Executi
 template <int idx, edge_list_graph edge_list_t, adjacency_list_graph adjacency_t, class ExecutionPolicy = default_execution_policy>
 auto fill(edge_list_t& el, adjacency_t& cs, directedness dir, bool sort_adjacency = false, ExecutionPolicy&& policy = {}) {
   if (dir == nw::graph::directedness::directed) {
-    fill_directed<idx>(el, num_vertices(el), cs, policy);
+    fill_directed<idx>(el, std::max<size_t>(num_vertices(el), cs.size()), cs, policy);
   } else {    // undirected -- this cannot be a bipartite graph
-    fill_undirected<idx>(el, num_vertices(el), cs, policy);
+    fill_undirected<idx>(el, std::max<size_t>(num_vertices(el), cs.size()), cs, policy);
   }
   if (sort_adjacency) {
     //make adjacency sorted
@@ -371,9 +372,9 @@ auto fill(edge_list_t& el, adjacency_t& cs, directedness dir, bool sort_adjacenc
 template <int idx, edge_list_graph bi_edge_list_t, adjacency_list_graph biadjacency_t, class ExecutionPolicy = default_execution_policy>
 auto fill_biadjacency(bi_edge_list_t& el, biadjacency_t& cs, bool sort_adjacency = false, ExecutionPolicy&& policy = {}) {
   if constexpr (bi_edge_list_t::edge_directedness == nw::graph::directedness::directed) {
-    fill_directed<idx>(el, num_vertices(el, idx), cs, policy);
+    fill_directed<idx>(el, std::max<size_t>(num_vertices(el, idx), cs.size()), cs, policy);
   } else {    // undirected -- this cannot be a bipartite graph
-    fill_undirected<idx>(el, num_vertices(el, idx), cs, policy);
+    fill_undirected<idx>(el, std::max<size_t>(num_vertices(el, idx), cs.size()), cs, policy);
   }
   if (sort_adjacency) {
     //make adjacency sorted
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index ebb4388..cf40a66 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -209,9 +209,9 @@ public:    // fixme
   iterator       begin()        { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator begin()  const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator cbegin() const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
-  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
+  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
 
   /// Random access to the outer range.
   sub_view       operator[](index_t i) { return begin()[i]; }
@@ -356,7 +356,7 @@ public:    // fixme
     new_to_be_indexed_.reserve(to_be_indexed_.size());
 
     new_indices_[0] = 0;
-    for (size_t i = 0; i < N_; ++i) {
+    for (size_t i = 0, e = size(); i < e; ++i) {
       const auto begin = to_be_indexed_.begin() + indices_[i];
       const auto end   = to_be_indexed_.begin() + indices_[i + 1];
       size_t     k     = 0;
-- 
2.43.0


From 172df72fbc727799351cb84bac37fc5e31281762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 24/51] fix: pushing back an edge of a new row into a
 compressed graph lost the row

---
 include/nwgraph/containers/compressed.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index cf40a66..1e27188 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -243,12 +243,12 @@ public:    // fixme
   }
 
   void close_for_push_back() {
+    is_open_ = false;
+    N_       = indices_.size() - 1;
     if (to_be_indexed_.size() == 0) return;
 
-    indices_.resize(N_ + 1);
     std::exclusive_scan(indices_.begin(), indices_.end(), indices_.begin(), 0);
     assert(indices_.back() == to_be_indexed_.size());
-    is_open_ = false;
   }
   
   void move(std::vector<index_t>&& indices, std::vector<Attributes>&&... to_be_indexed) {
@@ -275,14 +275,12 @@ public:    // fixme
   }
 
   void push_back(index_t i, const Attributes&... attrs) {
-    if (i >= indices_.size()) {
-      for (index_t j = indices_.size(); j <= i; ++j) {
-        indices_.emplace_back(0);
-        ++N_;
-      }
+    // row i needs the counts of rows 0..i and the end of the last row
+    while (i + 1 >= indices_.size()) {
+      indices_.emplace_back(0);
     }
-    ++indices_[i];
     to_be_indexed_.push_back(attrs...);
+    ++indices_[i];
   }
 
   void push_at(index_t i, const Attributes&... attrs) {
-- 
2.43.0


From 2a3db551a6f57861dc71b2607474ddf04582552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 25/51] fix: copying or moving arrays into a graph ignored
 their sizes

---
 include/nwgraph/containers/compressed.hpp | 10 ++++++++--
 include/nwgraph/containers/soa.hpp        |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 1e27188..e001b6d 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -254,23 +254,29 @@ public:    // fixme
   void move(std::vector<index_t>&& indices, std::vector<Attributes>&&... to_be_indexed) {
     indices_.swap(indices); //equivalent to 
     //indices_ = std::move(indices); 
+    N_ = indices_.size() - 1;
     to_be_indexed_.move(std::move(to_be_indexed)...);
     assert(indices_.back() == to_be_indexed_.size());
   }
   void move(std::vector<index_t>&& indices, std::tuple<std::vector<Attributes>...>&& to_be_indexed) {
     indices_.swap(indices); //equivalent to 
     //indices_ = std::move(indices); 
+    N_ = indices_.size() - 1;
     to_be_indexed_.move(std::move(to_be_indexed));
     assert(indices_.back() == to_be_indexed_.size());
   }
   void copy(const std::vector<index_t>& indices, const std::vector<Attributes>&... to_be_indexed) {
-    std::copy(indices.begin(), indices.end(), indices_.begin());
+    std::vector<index_t> tmp(indices);
     to_be_indexed_.copy(to_be_indexed...);
+    indices_.swap(tmp);
+    N_ = indices_.size() - 1;
     assert(indices_.back() == to_be_indexed_.size());
   }
   void copy(const std::vector<index_t>& indices, const std::tuple<std::vector<Attributes>...>& to_be_indexed) {
-    std::copy(indices.begin(), indices.end(), indices_.begin());
+    std::vector<index_t> tmp(indices);
     to_be_indexed_.copy(to_be_indexed);
+    indices_.swap(tmp);
+    N_ = indices_.size() - 1;
     assert(indices_.back() == to_be_indexed_.size());
   }
 
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index daf65cf..16429b9 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -231,11 +231,11 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   void move(std::tuple<std::vector<Attributes>...>&& attrs) {
-    std::apply([&](Attributes&&... attr) { move(attr...); }, attrs);
+    std::apply([&](std::vector<Attributes>&... attr) { move(std::move(attr)...); }, attrs);
   }
 
   void copy(const std::vector<Attributes>&... attrs) {
-    std::apply([&](auto&... vs) { (std::copy(attrs.begin(), attrs.end(), vs.begin()), ...); }, *this);
+    base::operator=(base(attrs...));
   }
 
   void copy(const std::tuple<std::vector<Attributes>...>& attrs) {
-- 
2.43.0


From 8f8f27fb74a21d7d5a3548147b1867aad0fd6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 26/51] fix: an allocation failure while growing an edge list
 left its columns of different lengths

---
 include/nwgraph/containers/soa.hpp | 23 +++++++++++++++++++++--
 include/nwgraph/edge_list.hpp      |  8 ++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 16429b9..d82c526 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -243,7 +243,13 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   void push_back(Attributes... attrs) {
-    std::apply([&](auto&... vs) { (vs.push_back(attrs), ...); }, *this);
+    size_t n = size();
+    try {
+      std::apply([&](auto&... vs) { (vs.push_back(attrs), ...); }, *this);
+    } catch (...) {
+      shrink(n);
+      throw;
+    }
   }
 
   void push_back(std::tuple<Attributes...> attrs) {
@@ -263,7 +269,13 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   void resize(size_t N) {
-    std::apply([&](auto&&... vs) { (vs.resize(N), ...); }, *this);
+    size_t n = size();
+    try {
+      std::apply([&](auto&&... vs) { (vs.resize(N), ...); }, *this);
+    } catch (...) {
+      shrink(n);
+      throw;
+    }
   }
 
   void reserve(size_t N) {
@@ -351,6 +363,13 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   bool operator!=(const storage_type& a) {
     return !operator==(a);
   }
+
+private:
+  // When some of the arrays could not grow: drop the elements past n, so that
+  // all arrays have the same length again.
+  void shrink(size_t n) {
+    std::apply([&](auto&... vs) { ((vs.size() > n ? vs.resize(n) : void()), ...); }, *this);
+  }
 };
 
 }    // namespace graph
diff --git a/include/nwgraph/edge_list.hpp b/include/nwgraph/edge_list.hpp
index 1a8fd1f..bc69889 100644
--- a/include/nwgraph/edge_list.hpp
+++ b/include/nwgraph/edge_list.hpp
@@ -145,28 +145,28 @@ public:
   void push_back(vertex_id_type i, vertex_id_type j, Attributes... attrs) {
     assert(graph_base::is_open == true);
 
+    base::push_back(i, j, attrs...);
+
     if constexpr (is_unipartite<graph_base>::value) {
       graph_base::vertex_cardinality[0] = std::max<vertex_id_type>(std::max(i, j)+1, graph_base::vertex_cardinality[0]);
     } else {
       graph_base::vertex_cardinality[0] = std::max<vertex_id_type>(i+1, graph_base::vertex_cardinality[0]);
       graph_base::vertex_cardinality[1] = std::max<vertex_id_type>(j+1, graph_base::vertex_cardinality[1]);
     }
-
-    base::push_back(i, j, attrs...);
   }
 
   void push_back(const element& elem) {
     vertex_id_type i = std::get<0>(elem);
     vertex_id_type j = std::get<1>(elem);
 
+    base::push_back(elem);
+
     if constexpr (is_unipartite<graph_base>::value) {
       graph_base::vertex_cardinality[0] = std::max<vertex_id_type>(std::max(i, j)+1, graph_base::vertex_cardinality[0]);
     } else {
       graph_base::vertex_cardinality[0] = std::max<vertex_id_type>(i + 1, graph_base::vertex_cardinality[0]);
       graph_base::vertex_cardinality[1] = std::max<vertex_id_type>(j + 1, graph_base::vertex_cardinality[1]);
     }
-
-    base::push_back(elem);
   }
 
   size_t size() const { return base::size(); }
-- 
2.43.0


From b72ac9bf12bea7894dc9125de29ba1ef2a604f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 27/51] fix: an unsupported Matrix Market file terminated the
 program

'throw;' with no exception being handled calls std::terminate.
---
 include/nwgraph/io/mmio.hpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 430aba4..2a1b2e2 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -23,6 +23,7 @@
 #include <future>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -181,16 +182,14 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -230,16 +229,14 @@ edge_list_t read_mm(const std::string& filename) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -254,14 +251,12 @@ edge_list_t read_mm(const std::string& filename) {
     //mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
 
     //return A;
-    std::cerr << "Can not populate unipartite graph with symmetric matrix" << std::endl;
-    throw;
+    throw std::runtime_error("Can not populate unipartite graph with symmetric matrix");
   }
   else if (n0 != n1 && false == is_unipartite<edge_list_t>::value){
     //bipartite edge list
     if (file_symmetry) {
-      std::cerr << "Can not populate bipartite graph with symmetric matrix" << std::endl;
-      throw;
+      throw std::runtime_error("Can not populate bipartite graph with symmetric matrix");
     }
     bi_edge_list<sym, Attributes...> A(n0, n1);
     mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
@@ -269,8 +264,7 @@ edge_list_t read_mm(const std::string& filename) {
     return A;
   }
   else {
-    std::cerr << "Mismatch edge list type with matrix symmetry" << std::endl;
-    throw;    
+    throw std::runtime_error("Mismatch edge list type with matrix symmetry");
   }
 }
 
@@ -289,16 +283,14 @@ auto read_mm_vector(std::istream& inputStream) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -364,8 +356,7 @@ directedness get_mm_symmetry(const std::string& filename) {
   }
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format: " << header[0] << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format: " + header[0]);
   }
   if (header[4] == "symmetric") {
     return directedness::undirected;
-- 
2.43.0


From 2460e67b7124cf826c13711c4a6142543b694780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 28/51] fix: a truncated Matrix Market file was read as garbage

Entries that were missing or malformed left their row, column and value
uninitialised, and missing sizes likewise.
---
 include/nwgraph/io/mmio.hpp | 98 +++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 42 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 2a1b2e2..2ab9654 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -39,15 +39,42 @@
 namespace nw {
 namespace graph {
 
+/// Read one line's "row column [value...]" entry of a Matrix Market file.
+///
+/// @throws std::runtime_error if the line is missing or does not hold a valid
+/// (one-based) entry.
+template <typename... T>
+void mm_read_entry(std::istream& inputStream, size_t& d0, size_t& d1, T&... v) {
+  std::string buffer;
+  std::getline(inputStream, buffer);
+  std::stringstream line(buffer);
+  if (!(line >> d0 >> d1) || !(line >> ... >> v) || d0 == 0 || d1 == 0) {
+    throw std::runtime_error("Bad or missing entry in Matrix Market file");
+  }
+}
+
+/// Read the size line of a Matrix Market file, skipping the comments before it.
+///
+/// @throws std::runtime_error if the line is missing or does not hold the sizes.
+template <typename... T>
+void mm_read_sizes(std::istream& inputStream, T&... n) {
+  std::string string_input;
+  while (std::getline(inputStream, string_input)) {
+    if (string_input[0] != '%') break;
+  }
+  std::stringstream line(string_input);
+  if (!inputStream || !(line >> ... >> n)) {
+    throw std::runtime_error("Bad or missing sizes in Matrix Market file");
+  }
+}
+
 void mm_fill(std::istream& inputStream, bi_edge_list<directedness::directed>& A, size_t nNonzeros, bool file_symmetry, bool pattern) {
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
+    size_t d0, d1;
 
-    std::getline(inputStream, buffer);
-    std::stringstream(buffer) >> d0 >> d1;
+    mm_read_entry(inputStream, d0, d1);
 
     A.push_back(d0-1, d1-1);
 
@@ -64,15 +91,13 @@ void mm_fill(std::istream& inputStream, bi_edge_list<directedness::directed, T>&
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-    T           v(1.0);
+    size_t d0, d1;
+    T      v(1.0);
 
-    std::getline(inputStream, buffer);
     if (pattern) {
-      std::stringstream(buffer) >> d0 >> d1;
+      mm_read_entry(inputStream, d0, d1);
     } else {
-      std::stringstream(buffer) >> d0 >> d1 >> v;
+      mm_read_entry(inputStream, d0, d1, v);
     }
 
     A.push_back(d0-1, d1-1, v);
@@ -88,11 +113,9 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::directed>& A, si
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
+    size_t d0, d1;
 
-    std::getline(inputStream, buffer);
-    std::stringstream(buffer) >> d0 >> d1;
+    mm_read_entry(inputStream, d0, d1);
 
     A.push_back(d0-1, d1-1);
 
@@ -109,15 +132,13 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::directed, T>& A,
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-    T           v(1.0);
+    size_t d0, d1;
+    T      v(1.0);
 
-    std::getline(inputStream, buffer);
     if (pattern) {
-      std::stringstream(buffer) >> d0 >> d1;
+      mm_read_entry(inputStream, d0, d1);
     } else {
-      std::stringstream(buffer) >> d0 >> d1 >> v;
+      mm_read_entry(inputStream, d0, d1, v);
     }
 
     A.push_back(d0-1, d1-1, v);
@@ -139,9 +160,9 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected>& A,
     double d2;
 
     if (pattern) {
-      inputStream >> d0 >> d1;
+      mm_read_entry(inputStream, d0, d1);
     } else {
-      inputStream >> d0 >> d1 >> d2;
+      mm_read_entry(inputStream, d0, d1, d2);
     }
 
     A.push_back(d0-1, d1-1);
@@ -155,14 +176,12 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected, T>&
   A.reserve(nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-    T           v(1.0);
-    std::getline(inputStream, buffer);
+    size_t d0, d1;
+    T      v(1.0);
     if (pattern) {
-      std::stringstream(buffer) >> d0 >> d1;
+      mm_read_entry(inputStream, d0, d1);
     } else {
-      std::stringstream(buffer) >> d0 >> d1 >> v;
+      mm_read_entry(inputStream, d0, d1, v);
     }
     A.push_back(d0-1, d1-1, v);
   }
@@ -192,11 +211,8 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
-    if (string_input[0] != '%') break;
-  }
   size_t n0, n1, nNonzeros;
-  std::stringstream(string_input) >> n0 >> n1 >> nNonzeros;
+  mm_read_sizes(inputStream, n0, n1, nNonzeros);
 
   // assert(n0 == n1);
 
@@ -239,11 +255,8 @@ edge_list_t read_mm(const std::string& filename) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
-    if (string_input[0] != '%') break;
-  }
   size_t n0, n1, nNonzeros;
-  std::stringstream(string_input) >> n0 >> n1 >> nNonzeros;
+  mm_read_sizes(inputStream, n0, n1, nNonzeros);
 
   if (n0 == n1 && is_unipartite<edge_list_t>::value) {
     //unipartite edge list
@@ -293,11 +306,8 @@ auto read_mm_vector(std::istream& inputStream) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
-    if (string_input[0] != '%') break;
-  }
   size_t n0, n1;
-  std::stringstream(string_input) >> n0 >> n1;
+  mm_read_sizes(inputStream, n0, n1);
 
   assert(1 == n1);
 
@@ -306,13 +316,17 @@ auto read_mm_vector(std::istream& inputStream) {
   if (header[3] == "real") {
     double d;
     for (size_t i = 0; i < n0; ++i) {
-      inputStream >> d;
+      if (!(inputStream >> d)) {
+        throw std::runtime_error("Bad or missing entry in Matrix Market file");
+      }
       vec[i] = d - 1;
     }
   } else {
     size_t d;
     for (size_t i = 0; i < n0; ++i) {
-      inputStream >> d;
+      if (!(inputStream >> d)) {
+        throw std::runtime_error("Bad or missing entry in Matrix Market file");
+      }
       vec[i] = d - 1;
     }
   }
-- 
2.43.0


From 9b3d4c4a374585dd7f7a6bfdace4d60de0ef94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 29/51] fix: a Matrix Market file that could not be written was
 not reported

---
 include/nwgraph/io/mmio.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 2ab9654..d4d6f5f 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -379,6 +379,16 @@ directedness get_mm_symmetry(const std::string& filename) {
   }
 }
 
+/// Close a Matrix Market file that has been written.
+///
+/// @throws std::runtime_error if any of it could not be written.
+inline void mm_close(std::ofstream& outputStream, const std::string& filename) {
+  outputStream.close();
+  if (!outputStream) {
+    throw std::runtime_error("cannot write " + filename);
+  }
+}
+
 template <size_t w_idx, directedness sym, typename... Attributes>
 void aos_stream(std::ofstream& outputStream, edge_list<sym, Attributes...> A, const std::string& file_symmetry, std::string& w_type) {
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
@@ -420,6 +430,7 @@ void write_mm(const std::string& filename, edge_list<sym, Attributes...>& A, con
 
   std::ofstream outputStream(filename);
   aos_stream<w_idx>(outputStream, A, file_symmetry, w_type);
+  mm_close(outputStream, filename);
 }
 
 template <size_t w_idx, int idx, typename... Attributes>
@@ -452,6 +463,7 @@ void write_mm(const std::string& filename, adjacency<idx, Attributes...>& A, con
 
   std::ofstream outputStream(filename);
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
+  mm_close(outputStream, filename);
 }
 
 template <size_t w_idx, int idx, typename... Attributes>
@@ -484,6 +496,7 @@ void write_mm(const std::string& filename, biadjacency<idx, Attributes...>& A, c
 
   std::ofstream outputStream(filename);
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
+  mm_close(outputStream, filename);
 }
 #if 0
 
-- 
2.43.0


From 7116ae934b17ccfc01533b3b30a110426598d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 30/51] fix: weights lost their precision in a Matrix Market
 file

---
 include/nwgraph/io/mmio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index d4d6f5f..dcb748c 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -429,6 +429,7 @@ void write_mm(const std::string& filename, edge_list<sym, Attributes...>& A, con
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
   aos_stream<w_idx>(outputStream, A, file_symmetry, w_type);
   mm_close(outputStream, filename);
 }
@@ -462,6 +463,7 @@ void write_mm(const std::string& filename, adjacency<idx, Attributes...>& A, con
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
   mm_close(outputStream, filename);
 }
@@ -495,6 +497,7 @@ void write_mm(const std::string& filename, biadjacency<idx, Attributes...>& A, c
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
   mm_close(outputStream, filename);
 }
-- 
2.43.0


From eca0dd8889e1b9a1a8fb7af529cc17de775bc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 31/51] fix: an adjacency<1> was written to a Matrix Market
 file zero-based and transposed

---
 include/nwgraph/io/mmio.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index dcb748c..f0f7247 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -443,7 +443,11 @@ void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      if constexpr (idx == 0) {
+        outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
+      } else {
+        outputStream << std::get<0>(*v) + 1 << " " << first - A.begin() + 1;
+      }
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
@@ -472,12 +476,16 @@ template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
-  outputStream << num_vertices(A, 0) << " " << num_vertices(A, 1) << " "
+  outputStream << num_vertices(A, idx) << " " << num_vertices(A, 1 - idx) << " "
                << std::accumulate(A.begin(), A.end(), 0, [&](int a, auto b) { return a + (int)(b.end() - b.begin()); }) << std::endl;
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      if constexpr (idx == 0) {
+        outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
+      } else {
+        outputStream << std::get<0>(*v) + 1 << " " << first - A.begin() + 1;
+      }
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
-- 
2.43.0


From e0fec72b60c46028d32505fba8e63bcac168813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 32/51] fix: MatrixMarketFile leaked the stream it read the
 header with

---
 include/nwgraph/io/MatrixMarketFile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 73554d6..6f95213 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -91,6 +91,9 @@ public:
       goto error;
     }
 
+    // The mapping stays valid without the descriptor, which f owns.
+    fclose(f);
+    fd_ = -1;
     return;
 
   error:
-- 
2.43.0


From 48e720e5bdef81d930923353afea01b53a4a90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 33/51] fix: MatrixMarketFile ran past the end of a file with
 no final newline

---
 include/nwgraph/io/MatrixMarketFile.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 6f95213..9afea27 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -85,8 +85,10 @@ public:
     fseek(f, 0L, SEEK_END);
     e_ = ftell(f);
 
-    base_ = static_cast<char*>(mmap(nullptr, e_, PROT_READ, MAP_PRIVATE, fd_, 0));
-    if (base_ == MAP_FAILED) {
+    // Reserve a byte more than the file, so that its last line is followed by a
+    // zero even when it has no newline.
+    base_ = static_cast<char*>(mmap(nullptr, e_ + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
+    if (base_ == MAP_FAILED || mmap(base_, e_, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd_, 0) == MAP_FAILED) {
       fprintf(stderr, "mmap failed, %d: %s\n", errno, strerror(errno));
       goto error;
     }
@@ -105,7 +107,7 @@ public:
 
   /// Release the memory mapping and file descriptor early.
   void release() {
-    if (base_ && munmap(base_, e_)) {
+    if (base_ && munmap(base_, e_ + 1)) {
       fprintf(stderr, "munmap failed, %d: %s\n", errno, strerror(errno));
     }
     base_ = nullptr;
@@ -162,7 +164,8 @@ public:
     }
 
     iterator& operator++() {
-      ++(i_ = std::strchr(i_, '\n'));
+      i_ += std::strcspn(i_, "\n");
+      if (*i_ != '\0') ++i_;
       return *this;
     }
 
-- 
2.43.0


From 780c7d110d6f3aa6868e04088dd7407959d3bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 34/51] fix: MatrixMarketFile read the values of an entry in an
 unspecified order

---
 include/nwgraph/io/MatrixMarketFile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 9afea27..f227842 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -160,7 +160,7 @@ public:
       const char* i = i_;
       int         u = get<int>(i) - 1;
       int         v = get<int>(i) - 1;
-      return std::tuple(u, v, get<Vs>(i)...);
+      return std::tuple<int, int, Vs...>{u, v, get<Vs>(i)...};    // braces, to read the values in order
     }
 
     iterator& operator++() {
-- 
2.43.0


From 4cd1d7af9a07686638e113bedf848ebe8060f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 35/51] fix: a random source of a benchmark could be one past
 the last vertex

---
 bench/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/common.hpp b/bench/common.hpp
index a5e378a..c724951 100644
--- a/bench/common.hpp
+++ b/bench/common.hpp
@@ -126,7 +126,7 @@ auto build_random_sources(const Graph& graph, size_t n, long seed) {
   auto sources = std::vector<Id>(n);
   auto degrees = build_degrees(graph);
   auto gen     = std::mt19937(seed);
-  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph));
+  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph) - 1);
 
   for (auto& id : sources) {
     for (id = dis(gen); degrees[id] == 0; id = dis(gen)) {
-- 
2.43.0


From 4627e4ff976212c65b4c4dac0a0c6b9078b7c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 36/51] fix: timers measured the wall clock, which can be
 stepped

---
 bench/common.hpp               | 8 ++++----
 include/nwgraph/util/timer.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bench/common.hpp b/bench/common.hpp
index c724951..925d731 100644
--- a/bench/common.hpp
+++ b/bench/common.hpp
@@ -154,14 +154,14 @@ auto load_sources_from_file(const Graph&, std::string file, size_t n = 0) {
 template <class Op>
 auto time_op(Op&& op) {
   if constexpr (std::is_void_v<decltype(op())>) {
-    auto start = std::chrono::high_resolution_clock::now();
+    auto start = std::chrono::steady_clock::now();
     op();
-    std::chrono::duration<double> end = std::chrono::high_resolution_clock::now() - start;
+    std::chrono::duration<double> end = std::chrono::steady_clock::now() - start;
     return std::tuple{end.count()};
   } else {
-    auto                          start = std::chrono::high_resolution_clock::now();
+    auto                          start = std::chrono::steady_clock::now();
     auto                          e     = op();
-    std::chrono::duration<double> end   = std::chrono::high_resolution_clock::now() - start;
+    std::chrono::duration<double> end   = std::chrono::steady_clock::now() - start;
     return std::tuple{end.count(), std::move(e)};
   }
 }
diff --git a/include/nwgraph/util/timer.hpp b/include/nwgraph/util/timer.hpp
index ec47177..426b091 100644
--- a/include/nwgraph/util/timer.hpp
+++ b/include/nwgraph/util/timer.hpp
@@ -24,13 +24,13 @@ namespace util {
 template <class D = std::chrono::microseconds>
 class timer {
 private:
-  typedef std::chrono::time_point<std::chrono::system_clock> time_t;
+  typedef std::chrono::time_point<std::chrono::steady_clock> time_t;
 
 public:
-  explicit timer(const std::string& msg = "") : start_time(std::chrono::system_clock::now()), stop_time(start_time), msg_(msg) { }
+  explicit timer(const std::string& msg = "") : start_time(std::chrono::steady_clock::now()), stop_time(start_time), msg_(msg) { }
 
-  time_t start()         { return (start_time = std::chrono::system_clock::now()); }
-  time_t stop()          { return (stop_time  = std::chrono::system_clock::now()); }
+  time_t start()         { return (start_time = std::chrono::steady_clock::now()); }
+  time_t stop()          { return (stop_time  = std::chrono::steady_clock::now()); }
   double elapsed() const { return std::chrono::duration_cast<D>(stop_time - start_time).count(); }
   double lap()           { stop(); return std::chrono::duration_cast<D>(stop_time - start_time).count(); }
 
-- 
2.43.0


From 388154e241c22b46d233a6afa898ddc232dd089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 37/51] fix: a read error in the middle of a Matrix Market
 entry truncated its value

---
 include/nwgraph/io/mmio.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index f0f7247..b603b83 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -41,14 +41,14 @@ namespace graph {
 
 /// Read one line's "row column [value...]" entry of a Matrix Market file.
 ///
-/// @throws std::runtime_error if the line is missing or does not hold a valid
-/// (one-based) entry.
+/// @throws std::runtime_error if the line is missing, could not be read to its
+/// end, or does not hold a valid (one-based) entry.
 template <typename... T>
 void mm_read_entry(std::istream& inputStream, size_t& d0, size_t& d1, T&... v) {
   std::string buffer;
   std::getline(inputStream, buffer);
   std::stringstream line(buffer);
-  if (!(line >> d0 >> d1) || !(line >> ... >> v) || d0 == 0 || d1 == 0) {
+  if (inputStream.bad() || !(line >> d0 >> d1) || !(line >> ... >> v) || d0 == 0 || d1 == 0) {
     throw std::runtime_error("Bad or missing entry in Matrix Market file");
   }
 }
-- 
2.43.0


From f7d4b3689c532f0ba43173aca38cecfeaf0e7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 38/51] fix: the sssp driver rejected every result on graphs
 with unreachable vertices

---
 bench/sssp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 238712f..22d846a 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -59,7 +59,7 @@ static auto dijkstra(const Graph& graph, vertex_id_t<Graph> source,
 
 
   // Distances
-  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max()/4);
+  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max());
 
   // Workqueue
   //  using WN = std::tuple<vertex_id_type, distance_t>;
-- 
2.43.0


From 3ee90fc8e1ecebc9863ab518827a2b6eb7a8ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 39/51] fix: the sssp driver read past its sources when given
 several iterations

---
 bench/sssp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 22d846a..3673481 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -182,10 +182,10 @@ int main(int argc, char* argv[]) {
     sources = load_sources_from_file(graph, args["--sources"].asString());
     assert(size_t(trials * iterations) <= sources.size());
   } else if (args["-r"]) {
-    sources.resize(trials);
+    sources.resize(trials * iterations);
     std::fill(sources.begin(), sources.end(), args["-r"].asLong());
   } else {
-    sources = build_random_sources(graph, trials, args["--seed"].asLong());
+    sources = build_random_sources(graph, trials * iterations, args["--seed"].asLong());
   }
 
   Times times;
-- 
2.43.0


From 46a5a3f9c3a1eecb7c4ae176f443c83a4a8f5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 40/51] fix: the tc driver's verifier wrote past the end of its
 vector

---
 bench/tc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/tc.cpp b/bench/tc.cpp
index 52022e4..2c25dc5 100644
--- a/bench/tc.cpp
+++ b/bench/tc.cpp
@@ -118,8 +118,8 @@ static std::size_t TCVerifier(Graph& graph) {
   for (auto&& [u, v] : edge_range(graph)) {
     auto u_out = graph[u];
     auto v_out = graph[v];
-    auto end   = std::set_intersection(u_out.begin(), u_out.end(), v_out.begin(), v_out.end(), intersection.begin());
-    intersection.resize(end - intersection.begin());
+    intersection.clear();
+    std::set_intersection(u_out.begin(), u_out.end(), v_out.begin(), v_out.end(), std::back_inserter(intersection));
     total += intersection.size();
   }
   return total;    // note that our processed Graph doesn't produce extra counts
-- 
2.43.0


From 69e6f91a90f567533fe7476587ba44fc87fa4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:27 +0000
Subject: [PATCH 41/51] fix: label propagation and bfs_v1/v2 indexed past their
 per-thread queues

---
 .../nwgraph/experimental/algorithms/bfs.hpp   |  7 +++++--
 .../algorithms/connected_components.hpp       | 20 +++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 13be7fb..6831bf5 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -29,6 +29,7 @@
 #include <tbb/concurrent_queue.h>
 #include <tbb/concurrent_vector.h>
 #include <tbb/parallel_for_each.h>
+#include <tbb/task_arena.h>
 
 
 namespace nw {
@@ -469,7 +470,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  // one queue for every thread that may run a task here, which can be more than num_bins
+  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   const std::size_t                                   N = num_vertices(out_graph);
   const std::size_t                                   M = out_graph.to_be_indexed_.size();
   Vector queue;
@@ -564,7 +566,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  size_t n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  // one queue for every thread that may run a task here, which can be more than num_bins
+  size_t n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   size_t N = num_vertices(out_graph);
   Vector parents(N);
   constexpr const auto null_vertex = null_vertex_v<vertex_id_type>();
diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 5f658a3..751b681 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -316,7 +316,9 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
     cur[n] = n;
   });
 
-  std::vector<T> frontier[num_bins];
+  // one frontier for every thread that may run a task here, which can be more than num_bins
+  int num_frontiers = std::max(num_bins, tbb::this_task_arena::max_concurrency());
+  std::vector<std::vector<T>> frontier(num_frontiers);
   auto propagate = [&](auto& g, auto& cur, auto& bitmap, auto& labels) {
     tbb::parallel_for(tbb::blocked_range<T>(0ul, cur.size()), [&](tbb::blocked_range<T>& r) {
       int worker_index = tbb::this_task_arena::current_thread_index();
@@ -336,10 +338,10 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
       } //for
     }, tbb::auto_partitioner());
   };
-  std::vector<size_t> size_array(num_bins);
+  std::vector<size_t> size_array(num_frontiers);
   auto curtonext = [&](auto& next) {
     size_t size = 0;
-    for (int i = 0; i < num_bins; ++i) {
+    for (int i = 0; i < num_frontiers; ++i) {
       //calculate the size of each thread-local frontier
       size_array[i] = size;
       //accumulate the total size of all thread-local frontiers
@@ -347,7 +349,7 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
     }
     //resize next frontier
     next.resize(size); 
-    std::for_each(exec, counting_iterator(0), counting_iterator(num_bins), [&](auto i) {
+    std::for_each(exec, counting_iterator(0), counting_iterator(num_frontiers), [&](auto i) {
       //copy each thread-local frontier to next frontier based on their size offset
       auto begin = std::next(next.begin(), size_array[i]);
       std::copy(exec, frontier[i].begin(), frontier[i].end(), begin);
@@ -379,7 +381,9 @@ std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
     cur[n] = n;
   });
 
-  std::vector<T> frontier[num_bins];
+  // one frontier for every thread that may run a task here, which can be more than num_bins
+  int num_frontiers = std::max(num_bins, tbb::this_task_arena::max_concurrency());
+  std::vector<std::vector<T>> frontier(num_frontiers);
   auto propagate = [&](auto& g, auto& cur, auto& bitmap, auto& labels) {
     tbb::parallel_for(cyclic_neighbor_range(g, num_bins), [&](auto& i) {
       int worker_index = tbb::this_task_arena::current_thread_index();
@@ -398,10 +402,10 @@ std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
       } //for
     }, tbb::auto_partitioner());
   };
-  std::vector<size_t> size_array(num_bins);
+  std::vector<size_t> size_array(num_frontiers);
   auto curtonext = [&](auto& next) {
     size_t size = 0;
-    for (int i = 0; i < num_bins; ++i) {
+    for (int i = 0; i < num_frontiers; ++i) {
       //calculate the size of each thread-local frontier
       size_array[i] = size;
       //accumulate the total size of all thread-local frontiers
@@ -409,7 +413,7 @@ std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
     }
     //resize next frontier
     next.resize(size); 
-    std::for_each(exec, counting_iterator(0), counting_iterator(num_bins), [&](auto i) {
+    std::for_each(exec, counting_iterator(0), counting_iterator(num_frontiers), [&](auto i) {
       //copy each thread-local frontier to next frontier based on their size offset
       auto begin = std::next(next.begin(), size_array[i]);
       std::copy(exec, frontier[i].begin(), frontier[i].end(), begin);
-- 
2.43.0


From 0d0a3276a7a120adeb9c1eb6db96b7606c23a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:28 +0000
Subject: [PATCH 42/51] fix: the pr driver printed ranks of vertices that do
 not exist

---
 bench/pr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/pr.cpp b/bench/pr.cpp
index 1ba3aa1..2f5b0cc 100644
--- a/bench/pr.cpp
+++ b/bench/pr.cpp
@@ -37,6 +37,7 @@ static constexpr const char USAGE[] =
 #include "nwgraph/algorithms/page_rank.hpp"
 #include "nwgraph/experimental/algorithms/page_rank.hpp"
 #include "common.hpp"
+#include <algorithm>
 #include <docopt.h>
 
 using namespace nw::graph::bench;
@@ -46,7 +47,7 @@ using namespace nw::util;
 template <typename Vector>
 void print_n_ranks(const Vector& rankings, size_t n) {
   auto perm = proxysort<size_t>(rankings, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0; i < std::min(n, perm.size()); ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(rankings[perm[i]]) << std::endl;
   }
 }
-- 
2.43.0


From a014aedc8226a092da2e601672a68958934390f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:28 +0000
Subject: [PATCH 43/51] fix: BCVerifier rounded differences to the type of the
 path counts

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index d20c96b..70caae2 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -37,6 +37,7 @@
 
 #include <forward_list>
 #include <future>
+#include <cmath>
 #include <iostream>
 #include <list>
 #include <mutex>
@@ -117,7 +118,8 @@ bool BCVerifier(const Graph& g, std::vector<typename graph_traits<Graph>::vertex
   bool all_ok = true;
 
   for (size_t i = 0; i < scores.size(); ++i) {
-    accum_t delta = abs(scores_to_test[i] - scores[i]);
+    // not accum_t, the type of the path counts, which may be an integer type
+    auto delta = std::abs(scores_to_test[i] - scores[i]);
     if (delta > 1e-6) {
       std::cout << i << ": " << scores[i] << " != " << scores_to_test[i] << " " << scores[i] - scores_to_test[i] << std::endl;
       all_ok = false;
-- 
2.43.0


From 7aa85834ee9fd5b48ca5f2ee7f328d765a70a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 44/51] fix: kruskal sizes its subsets by the number of
 vertices, not of edges

---
 include/nwgraph/algorithms/kruskal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/kruskal.hpp b/include/nwgraph/algorithms/kruskal.hpp
index 7b686b7..740fb94 100644
--- a/include/nwgraph/algorithms/kruskal.hpp
+++ b/include/nwgraph/algorithms/kruskal.hpp
@@ -50,7 +50,7 @@ EdgeListT kruskal(EdgeListT& E) {
  */
 template <edge_list_graph EdgeListT, typename Compare>
 EdgeListT kruskal(EdgeListT& E, Compare comp) {
-  size_t    n_vtx = E.size();
+  size_t    n_vtx = num_vertices(E);
   EdgeListT T(n_vtx);
   std::sort(E.begin(), E.end(), comp);
 
-- 
2.43.0


From 5311405a093ed160e48f485575b6874fa366ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 45/51] fix: dijkstra starts from the largest value of the
 distance type

---
 include/nwgraph/algorithms/dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 70561b5..76ea5ab 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -86,7 +86,7 @@ auto dijkstra(
   size_t N(graph.end() - graph.begin());
   assert(source < N);
 
-  std::vector<Distance> distance(N, std::numeric_limits<vertex_id_type>::max());
+  std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
   distance[source] = 0;
 
   auto g                = graph.begin();
-- 
2.43.0


From 1718d2fd2535e4f10048d2d0449d52bfeae3598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 46/51] fix: prim compiles, starts from its source and takes
 the lightest edge next

---
 include/nwgraph/algorithms/prim.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/algorithms/prim.hpp b/include/nwgraph/algorithms/prim.hpp
index c01800f..b3c6887 100644
--- a/include/nwgraph/algorithms/prim.hpp
+++ b/include/nwgraph/algorithms/prim.hpp
@@ -19,6 +19,12 @@
 #include "nwgraph/graph_traits.hpp"
 #include "nwgraph/edge_list.hpp"
 
+#include <algorithm>
+#include <cassert>
+#include <functional>
+#include <limits>
+#include <queue>
+#include <tuple>
 #include <vector>
 
 namespace nw {
@@ -43,31 +49,34 @@ std::vector<vertex_id_t<Graph>> prim(const Graph& graph, vertex_id_t<Graph> sour
   assert(source < N);
 
   std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
-  std::vector<Distance> predecessor(N, std::numeric_limits<Distance>::max());
+  std::vector<vertex_id_type> predecessor(N, std::numeric_limits<vertex_id_type>::max());
   std::vector<uint8_t> finished(N, false);
   distance[source] = 0;
 
   using weight_t        = Distance;
-  using weighted_vertex = std::tuple<vertex_id_type, weight_t>;
+  using weighted_vertex = std::tuple<weight_t, vertex_id_type>;    // the lightest first
 
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, std::greater<weighted_vertex>> Q;
+  Q.push({ distance[source], source });
 
   while (!Q.empty()) {
 
-    auto u = std::get<0>(Q.top());
+    auto u = std::get<1>(Q.top());
     Q.pop();
 
     if (finished[u]) {
       continue;
     }
+    finished[u] = true;
 
-    std::for_each(g[u].begin(), g[u].end(), [&](auto&& e) {
+    auto&& neighbors = graph[u];
+    std::for_each(neighbors.begin(), neighbors.end(), [&](auto&& e) {
       auto v = target(graph, e);
       auto w = weight(e);
 
       if (!finished[v] && distance[v] > w) {
 	distance[v] = w;
-	Q.push({ v, distance[v] });
+	Q.push({ distance[v], v });
 	predecessor[v] = u;
       }
     });
-- 
2.43.0


From f347df341c2a24f5eae658aad266137fd7f8366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 47/51] fix: bfs_edge_range starts at the first edge to an
 unvisited vertex

---
 include/nwgraph/adaptors/bfs_edge_range.hpp | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/adaptors/bfs_edge_range.hpp b/include/nwgraph/adaptors/bfs_edge_range.hpp
index 1859239..724fe95 100644
--- a/include/nwgraph/adaptors/bfs_edge_range.hpp
+++ b/include/nwgraph/adaptors/bfs_edge_range.hpp
@@ -146,20 +146,28 @@ public:
 
   public:
     bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      find_next();
+    }
 
     bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
         : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
 
     bfs_edge_range_iterator& operator++() {
-      auto& Q      = the_range_.Q_;
-      auto& visited = the_range_.visited_;
+      the_range_.visited_[std::get<0>(*u_begin)] = true;
+      the_range_.Q_.push(std::get<0>(*u_begin));
 
+      ++u_begin;
+      find_next();
 
-      visited[std::get<0>(*u_begin)] = true;
-      Q.push(std::get<0>(*u_begin));
+      return *this;
+    }
+
+    // Move to the next edge to a vertex not yet visited, if there is one.
+    void find_next() {
+      auto& Q      = the_range_.Q_;
+      auto& visited = the_range_.visited_;
 
-      ++u_begin;
       while (u_begin != u_end && visited[std::get<0>(*u_begin)] == true) {
         ++u_begin;
       }
@@ -177,8 +185,6 @@ public:
           ++u_begin;
         }
       }
-
-      return *this;
     }
 
     // Better to store v_ as a tuple?
-- 
2.43.0


From afbeddd2867f3f3fcf3bbf0b4a80c9653aa188dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:14 +0000
Subject: [PATCH 48/51] fix: building a vov or adj_list from an undirected edge
 list swapped the ends of the caller's edges

---
 include/nwgraph/build.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 463edac..d8721ea 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -123,7 +123,8 @@ auto fill_adj_list(edge_list_t& el, adj_list_t& al) {
 
   al.open_for_push_back();
 
-  std::for_each(el.begin(), el.end(), [&](auto elt) {
+  std::for_each(el.begin(), el.end(), [&](auto&& edge) {
+    typename edge_list_t::value_type elt(edge);    // a copy, not references into the edge list
     push_back_fill_helper(al, elt);
     ++num_edges;
     if constexpr (edge_list_t::edge_directedness == directedness::undirected) {
-- 
2.43.0


From 8b1b0c29e7f9dcebfe09c916b47f0b68ffe09d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:49 +0000
Subject: [PATCH 49/51] fix: degrees of an undirected bipartite edge list are
 counted

---
 include/nwgraph/build.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index d8721ea..268212b 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -503,13 +503,12 @@ requires(false == is_unipartite<typename edge_list_t::bipartite_graph_base>::val
 
   std::vector<vertex_id_type> degree(d_size);
 
-  if constexpr (edge_list_t::edge_directedness == directedness::directed) {
-    std::vector<std::atomic<vertex_id_type>> tmp(degree.size());
+  // the two ends of an edge are in different parts: only one of them is counted, whatever the directedness
+  std::vector<std::atomic<vertex_id_type>> tmp(degree.size());
 
-    std::for_each(policy, el.begin(), el.end(), [&](auto&& x) { ++tmp[std::get<d_idx>(x)]; });
+  std::for_each(policy, el.begin(), el.end(), [&](auto&& x) { ++tmp[std::get<d_idx>(x)]; });
 
-    std::copy(policy, tmp.begin(), tmp.end(), degree.begin());
-  }
+  std::copy(policy, tmp.begin(), tmp.end(), degree.begin());
   return degree;
 }
 
-- 
2.43.0


From 870528e37b20c440fcaaa2615fa9ded855c5457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:23 +0000
Subject: [PATCH 50/51] fix: page_rank_v2 starts from the contributions of the
 initial ranks

---
 include/nwgraph/experimental/algorithms/page_rank.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/experimental/algorithms/page_rank.hpp b/include/nwgraph/experimental/algorithms/page_rank.hpp
index 01158c2..4fca19d 100644
--- a/include/nwgraph/experimental/algorithms/page_rank.hpp
+++ b/include/nwgraph/experimental/algorithms/page_rank.hpp
@@ -185,6 +185,9 @@ void page_rank_v2(const Graph& graph, const std::vector<typename Graph::vertex_i
   std::fill(page_rank.begin(), page_rank.end(), init_score);
 
   std::vector<Real> outgoing_contrib(page_rank.size());
+  for (size_t i = 0; i < page_rank.size(); ++i) {
+    outgoing_contrib[i] = page_rank[i] / (Real)degrees[i];
+  }
 
   for (size_t iter = 0; iter < max_iters; ++iter) {
 
-- 
2.43.0


From bda10add1ef9821521277117372d3bc275d71a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:52 +0000
Subject: [PATCH 51/51] fix: delta_stepping lost vertices when a distance met
 the edge of a fractional bucket

---
 include/nwgraph/algorithms/delta_stepping.hpp          |  6 +++---
 .../nwgraph/experimental/algorithms/delta_stepping.hpp | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 12d21cb..dd37d23 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -118,7 +118,7 @@ auto delta_stepping(
   tdist[source] = 0;
 
   auto relax = [&](Id i, Id j, auto wt) {
-    auto new_distance = tdist[i] + wt;
+    distance_t new_distance = tdist[i] + wt;
     if (new_distance < tdist[j]) {
       tdist[j]             = new_distance;
       std::size_t dest_bin = new_distance / delta;
@@ -137,7 +137,7 @@ auto delta_stepping(
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (std::size_t(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j  = target(graph, elt);
           auto&& wt = weight(elt);
@@ -211,7 +211,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& u) {
-      if (tdist[u] >= delta * top_bin) {
+      if (std::size_t(tdist[u] / delta) >= top_bin) {
         nw::graph::parallel_for(graph[u], [&](auto&& v, auto&& wt) { relax(u, v, wt); });
       }
     });
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 9cf67bf..d20ef3f 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -80,7 +80,7 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (std::size_t(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) { std::apply([&](Id j, auto wt) { relax(i, j, wt); }, std::move(elt)); });
       }
     });
@@ -145,7 +145,7 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(std::execution::par_unseq, frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (std::size_t(tdist[i] / delta) >= top_bin) {
         std::for_each(std::execution::par_unseq, graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -205,7 +205,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (std::size_t(tdist[i] / delta) >= top_bin) {
         for (auto&& elt : graph[i]) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -266,7 +266,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (std::size_t(tdist[i] / delta) >= top_bin) {
           for (auto&& elt : graph[i]) {
             auto&& j = target(graph, elt);
             auto&& wt = weight(elt);
@@ -328,7 +328,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (std::size_t(tdist[i] / delta) >= top_bin) {
           tbb::parallel_for(graph[i], [&](auto&& range) {
             for (auto&& elt : range) {
               auto&& j = target(graph, elt);
-- 
2.43.0

