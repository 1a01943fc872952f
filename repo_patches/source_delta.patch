From d5270277ce27d1e43e0cb150cfad0437d4c4b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 01/45] fix: end of a compressed adjacency agrees with its size

Adjacencies and biadjacencies built from an edge list had one extra row
between begin() and end() (read past the index array), and fill() on a
pre-sized adjacency left a stale end. Afforest and CCVerifier relied on
the extra row.
---
 include/nwgraph/adjacency.hpp                       | 8 ++++----
 include/nwgraph/algorithms/connected_components.hpp | 9 +++++----
 include/nwgraph/containers/compressed.hpp           | 8 ++++----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 5d9c4c3..27425e1 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -92,7 +92,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                              policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -101,7 +101,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                                policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -234,7 +234,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
 
@@ -246,7 +246,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
diff --git a/include/nwgraph/algorithms/connected_components.hpp b/include/nwgraph/algorithms/connected_components.hpp
index 514bb32..6abc595 100644
--- a/include/nwgraph/algorithms/connected_components.hpp
+++ b/include/nwgraph/algorithms/connected_components.hpp
@@ -57,9 +57,9 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
   for (auto&& [n] : plain_range(graph)) {
     label_to_source[comp[n]] = n;
   }
-  std::vector<bool>   visited(graph.size() + 1);
+  std::vector<bool>   visited(graph.size());
   std::vector<NodeID> frontier;
-  frontier.reserve(graph.size() + 1);
+  frontier.reserve(graph.size());
   for (auto&& [curr_label, source] : label_to_source) {
     frontier.clear();
     frontier.push_back(source);
@@ -98,7 +98,7 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
     }
   }
   if (0 < i) {
-    std::cout << "unvisited " << i << " " << graph.size() + 1 << " ";
+    std::cout << "unvisited " << i << " " << graph.size() << " ";
     return false;
   }
   return true;
@@ -196,7 +196,8 @@ static T sample_frequent_element(const Vector& comp, size_t num_samples = 1024)
 template <typename Execution, adjacency_list_graph Graph1, adjacency_list_graph Graph2>
 static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph, const size_t neighbor_rounds = 2) {
   using vertex_id_type = vertex_id_t<Graph1>;
-  std::vector<std::atomic<vertex_id_type>> comp(graph.size() + 1);
+  std::vector<std::atomic<vertex_id_type>> comp(graph.size());
+  if (comp.empty()) return comp;
   std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type n) { comp[n] = n; });
   for (size_t r = 0; r < neighbor_rounds; ++r) {
     std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type u) {
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 70bf95a..744dc63 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -207,9 +207,9 @@ public:    // fixme
   iterator       begin()        { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator begin()  const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator cbegin() const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
-  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
+  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
 
   /// Random access to the outer range.
   sub_view       operator[](index_t i) { return begin()[i]; }
@@ -345,7 +345,7 @@ public:    // fixme
     new_to_be_indexed_.reserve(to_be_indexed_.size());
 
     new_indices_[0] = 0;
-    for (size_t i = 0; i < N_; ++i) {
+    for (size_t i = 0; i < size(); ++i) {
       const auto begin = to_be_indexed_.begin() + indices_[i];
       const auto end   = to_be_indexed_.begin() + indices_[i + 1];
       size_t     k     = 0;
-- 
2.43.0


From 56a28cb2fc1821cbf72f661e876c09a32841dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/45] fix: compressed push_back grows the index array for the
 last vertex

Vertex i needs indices i and i+1; appending an edge of vertex N to a
structure with N vertices left the edge outside every neighbor list.
---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 744dc63..49d674a 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -273,8 +273,8 @@ public:    // fixme
   }
 
   void push_back(index_t i, const Attributes&... attrs) {
-    if (i >= indices_.size()) {
-      for (index_t j = indices_.size(); j <= i; ++j) {
+    if (i + 1 >= indices_.size()) {
+      for (index_t j = indices_.size(); j <= i + 1; ++j) {
         indices_.emplace_back(0);
         ++N_;
       }
-- 
2.43.0


From aed55bf22e2e64f092773937a9baa14b94b68cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/45] fix: permuting a compressed structure by degree moves
 the right rows

The permutation handed to the column permute maps old to new ids, but it
was applied in the opposite direction, copying neighbor lists into slots of
another length (and past the end). permute_by_degree also did not compile
with its default policy argument.
---
 include/nwgraph/containers/compressed.hpp | 2 +-
 include/nwgraph/containers/soa.hpp        | 2 +-
 include/nwgraph/containers/zip.hpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 49d674a..71bbf42 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -450,7 +450,7 @@ public:    // fixme
   std::vector<index_t> permute_by_degree(const std::string& direction = "descending", ExecutionPolicy&& ex_policy = {}) {
     //1. get the degrees of all the vertices
     size_t                   n = indices_.size() - 1;
-    std::vector              degs = degrees<ExecutionPolicy>(ex_policy);
+    std::vector              degs = degrees(ex_policy);
     //2. populate permutation with vertex id
     std::vector<index_t> perm(n);
     tbb::parallel_for(tbb::blocked_range(0ul, n), [&](auto&& r) {
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 18de682..6bd8805 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -319,7 +319,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     T ws(vs.size());
     for (size_t i = 0, e = indices.size() - 1; i < e; ++i) {
       vertex_id_type j = perm[i];
-      std::copy(ex_policy, vs.begin() + indices[j], vs.begin() + indices[j + 1], ws.begin() + new_indices[i]);
+      std::copy(ex_policy, vs.begin() + indices[i], vs.begin() + indices[i + 1], ws.begin() + new_indices[j]);
     }
     std::copy(ex_policy, ws.begin(), ws.end(), vs.begin());
   }
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0ff909e..a8ed30e 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -282,7 +282,7 @@ struct zipped : std::tuple<Ranges&...> {
     T ws(vs.size());
     for (size_t i = 0, e = indices.size() - 1; i < e; ++i) {
       vertex_id_type j = perm[i];
-      std::copy(ex_policy, vs.begin() + indices[j], vs.begin() + indices[j + 1], ws.begin() + new_indices[i]);
+      std::copy(ex_policy, vs.begin() + indices[i], vs.begin() + indices[i + 1], ws.begin() + new_indices[j]);
     }
     std::copy(ex_policy, ws.begin(), ws.end(), vs.begin());
   }
-- 
2.43.0


From 8921c8cc09ccebfab32101b25d6f9bc8116c1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 04/45] fix: sorting neighbor lists keeps attributes with their
 neighbors

sort_to_be_indexed (sorted adjacency construction, relabel_to_be_indexed)
sorted the neighbor column alone and left the attribute columns behind.
---
 include/nwgraph/containers/compressed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 71bbf42..9e012ab 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -416,10 +416,11 @@ public:    // fixme
   */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void sort_to_be_indexed(ExecutionPolicy&& ex_policy = {}) {
-    auto s = std::get<0>(to_be_indexed_).begin();
+    auto s = to_be_indexed_.begin();
 
     for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
-      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1],
+                [](auto&& a, auto&& b) { return std::get<0>(a) < std::get<0>(b); });
     }
 
     if (g_debug_compressed) {
-- 
2.43.0


From 8459f2186c41e6a3a0fca5d4bed971f7d23dd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 05/45] fix: compressed serialization writes its vertex count,
 not adjacent memory

N_ has the index type (32 bits by default) but was written and read with
sizeof(size_t), overwriting the bytes after it on reload; const adjacencies
could not be serialized at all.
---
 include/nwgraph/adjacency.hpp             |  2 +-
 include/nwgraph/containers/compressed.hpp | 13 ++++++++-----
 include/nwgraph/containers/soa.hpp        |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 27425e1..e208427 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -278,7 +278,7 @@ public:
    * 
    * @param outfile_name The output file name.
    */
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     bipartite_graph_base::serialize(out_file);
     base::serialize(out_file);
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 9e012ab..9652ce0 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -300,31 +300,34 @@ public:    // fixme
     }
   }
 
-  void serialize(std::ostream& outfile) {
+  void serialize(std::ostream& outfile) const {
+    size_t n       = N_;
     size_t el_size = sizeof(indices_[0]);
     size_t st_size = indices_.size();
 
     outfile.write(reinterpret_cast<const char*>(magic_), sizeof(magic_));
-    outfile.write(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    outfile.write(reinterpret_cast<char*>(&n), sizeof(size_t));
 
     outfile.write(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     outfile.write(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-    outfile.write(reinterpret_cast<char*>(indices_.data()), st_size * el_size);
+    outfile.write(reinterpret_cast<const char*>(indices_.data()), st_size * el_size);
     to_be_indexed_.serialize(outfile);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
   }
 
   void deserialize(std::istream& infile) {
     char   spell[sizeof(magic_) + 1];
+    size_t n       = 0;
     size_t el_size = -1;
     size_t st_size = -1;
 
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic_));
-    infile.read(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    infile.read(reinterpret_cast<char*>(&n), sizeof(size_t));
+    N_ = n;
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 6bd8805..54728ee 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -294,7 +294,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     std::apply([&](auto&... vs) { (serialize(outfile, vs), ...); }, *this);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
   }
-- 
2.43.0


From ddc7c8e6e87ed4656ecf8138e2071eeedf7dca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 06/45] fix: delta-stepping relax initialises its success flag

When the candidate distance was no improvement the flag was read
uninitialised, so a vertex could be re-queued for ever.
---
 include/nwgraph/algorithms/delta_stepping.hpp              | 2 +-
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index c4f2585..f68034f 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -186,7 +186,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 33580d0..194faf3 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -163,7 +163,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -222,7 +222,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -284,7 +284,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0


From bb2cdc7d2b1e21cf6da19c6f89752fd9917133d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 07/45] fix: delta_stepping_m1 visits its frontier

_priority_queue::end() returned begin(), so every frontier looked empty
and only the source got a distance.
---
 include/nwgraph/algorithms/delta_stepping.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index f68034f..12d21cb 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -47,9 +47,9 @@ class _priority_queue : public std::priority_queue<T, Container, Compare> {
 public:
   explicit _priority_queue(const Compare& compare = Compare(), const Container& cont = Container()) : base(compare, cont) {}
   auto begin() { return base::c.begin(); }
-  auto end() { return base::c.begin(); }
+  auto end() { return base::c.end(); }
   auto begin() const { return base::c.begin(); }
-  auto end() const { return base::c.begin(); }
+  auto end() const { return base::c.end(); }
 };
 
 template <class distance_t, adjacency_list_graph Graph, class Id, class Weight>
-- 
2.43.0


From f88093efd0ec640cfb04d74a834478cd999fa1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 08/45] fix: dijkstra starts from the maximum distance, not the
 maximum vertex id

With a signed Distance the initial value was -1 and no distance was ever
computed; with a wide one, distances beyond 2^32 were lost.
---
 include/nwgraph/algorithms/dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 70561b5..76ea5ab 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -86,7 +86,7 @@ auto dijkstra(
   size_t N(graph.end() - graph.begin());
   assert(source < N);
 
-  std::vector<Distance> distance(N, std::numeric_limits<vertex_id_type>::max());
+  std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
   distance[source] = 0;
 
   auto g                = graph.begin();
-- 
2.43.0


From 520b3dc5b5da55e28bd693c346179f11699500d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 09/45] fix: kruskal sizes its disjoint sets by the number of
 vertices

It used the number of edges: a graph with more vertices than edges read
and wrote past the end of the subsets.
---
 include/nwgraph/algorithms/kruskal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/kruskal.hpp b/include/nwgraph/algorithms/kruskal.hpp
index 7b686b7..740fb94 100644
--- a/include/nwgraph/algorithms/kruskal.hpp
+++ b/include/nwgraph/algorithms/kruskal.hpp
@@ -50,7 +50,7 @@ EdgeListT kruskal(EdgeListT& E) {
  */
 template <edge_list_graph EdgeListT, typename Compare>
 EdgeListT kruskal(EdgeListT& E, Compare comp) {
-  size_t    n_vtx = E.size();
+  size_t    n_vtx = num_vertices(E);
   EdgeListT T(n_vtx);
   std::sort(E.begin(), E.end(), comp);
 
-- 
2.43.0


From af3ccf7effdd6de9a3a4addab7bd134214742c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 10/45] fix: k_core peels to the k-core

One depth-first pass from vertex 0 with degrees that change underneath it
missed other components, missed vertices that drop below k later, and
counted isolated vertices.
---
 include/nwgraph/algorithms/k_core.hpp | 37 ++++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/nwgraph/algorithms/k_core.hpp b/include/nwgraph/algorithms/k_core.hpp
index bf97263..5c079e5 100644
--- a/include/nwgraph/algorithms/k_core.hpp
+++ b/include/nwgraph/algorithms/k_core.hpp
@@ -76,19 +76,32 @@ std::tuple<Unordered_map, size_t> k_core(const Graph& A, int k) {
     ++degree[v];
   }
 
-  dfs_edge_range ranges(A, 0);
-  auto           ite = ranges.begin();
-  for (; ite != ranges.end(); ++ite) {
-    auto v = std::get<1>(*ite);
-    auto w = std::get<2>(*ite);
-
-    Neighbors edge = make_my_pair(v, w);
-
-    if (filter.find(edge) == filter.end() && degree[v] < k) {
-      if (--degree[w] == 0) n_vtx--;
-      if (--degree[v] == 0) n_vtx--;
+  // Peel vertices of degree less than k until none is left
+  std::vector<bool>               removed(n_vtx, false);
+  std::vector<vertex_id_t<Graph>> peel;
+  for (size_t v = 0; v < old_n_vtx; ++v) {
+    if (degree[v] < k) {
+      removed[v] = true;
+      peel.push_back(v);
+    }
+  }
 
-      filter.insert({edge, true});
+  while (!peel.empty()) {
+    auto v = peel.back();
+    peel.pop_back();
+    --n_vtx;
+
+    for (auto&& e : A[v]) {
+      auto      w    = target(A, e);
+      Neighbors edge = make_my_pair(v, w);
+
+      if (filter.find(edge) == filter.end()) {
+        filter.insert({edge, true});
+        if (--degree[w] < k && !removed[w]) {
+          removed[w] = true;
+          peel.push_back(w);
+        }
+      }
     }
   }
 
-- 
2.43.0


From 53b780bb9e73d354976d30da01986151be87d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 11/45] fix: jones_plassmann_coloring colours all vertices

Only one maximal independent set was coloured; all other vertices kept
colour 0 even when adjacent to each other.
---
 .../algorithms/jones_plassmann_coloring.hpp   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
index e192f1a..9b29fbd 100644
--- a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
+++ b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
@@ -79,6 +79,25 @@ void jones_plassmann_coloring(Graph& A, std::vector<size_t>& colors) {
     //find the first unused color within every independent vertex's neighbors
     colors[u] = firstMissingPositive(neighbor_colors[u]);
   }
+
+  //the other vertices may be adjacent to each other: give each of them the first
+  //color (starting from 0) that no neighbor colored so far has
+  std::vector<bool> colored(N, false);
+  for (auto& u : independentSet) {
+    colored[u] = true;
+  }
+  for (size_t u = 0; u < N; ++u) {
+    if (colored[u]) continue;
+    std::vector<bool> used;
+    for (auto it = A[u].begin(); it != A[u].end(); ++it) {
+      size_t v = std::get<0>(*it);
+      if (!colored[v]) continue;
+      if (colors[v] >= used.size()) used.resize(colors[v] + 1, false);
+      used[colors[v]] = true;
+    }
+    colors[u]  = std::find(used.begin(), used.end(), false) - used.begin();
+    colored[u] = true;
+  }
 }
 
 }    // namespace graph
-- 
2.43.0


From 5fdae904ecb337c3d7e5d060acfd7b1bce27ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 12/45] fix: prim compiles and grows a minimum spanning tree

It referred to an undeclared iterator, never queued the source, never
marked a vertex finished and ordered its queue by vertex id.
---
 include/nwgraph/algorithms/prim.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/algorithms/prim.hpp b/include/nwgraph/algorithms/prim.hpp
index c01800f..688ce90 100644
--- a/include/nwgraph/algorithms/prim.hpp
+++ b/include/nwgraph/algorithms/prim.hpp
@@ -19,6 +19,11 @@
 #include "nwgraph/graph_traits.hpp"
 #include "nwgraph/edge_list.hpp"
 
+#include <algorithm>
+#include <cassert>
+#include <limits>
+#include <queue>
+#include <tuple>
 #include <vector>
 
 namespace nw {
@@ -43,31 +48,34 @@ std::vector<vertex_id_t<Graph>> prim(const Graph& graph, vertex_id_t<Graph> sour
   assert(source < N);
 
   std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
-  std::vector<Distance> predecessor(N, std::numeric_limits<Distance>::max());
+  std::vector<vertex_id_type> predecessor(N, std::numeric_limits<vertex_id_type>::max());
   std::vector<uint8_t> finished(N, false);
   distance[source] = 0;
 
   using weight_t        = Distance;
-  using weighted_vertex = std::tuple<vertex_id_type, weight_t>;
+  using weighted_vertex = std::tuple<weight_t, vertex_id_type>;
 
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, std::greater<weighted_vertex>> Q;
 
+  Q.push({ distance[source], source });
+
   while (!Q.empty()) {
 
-    auto u = std::get<0>(Q.top());
+    auto u = std::get<1>(Q.top());
     Q.pop();
 
     if (finished[u]) {
       continue;
     }
+    finished[u] = true;
 
-    std::for_each(g[u].begin(), g[u].end(), [&](auto&& e) {
+    std::for_each(graph[u].begin(), graph[u].end(), [&](auto&& e) {
       auto v = target(graph, e);
       auto w = weight(e);
 
       if (!finished[v] && distance[v] > w) {
 	distance[v] = w;
-	Q.push({ v, distance[v] });
+	Q.push({ distance[v], v });
 	predecessor[v] = u;
       }
     });
-- 
2.43.0


From bb0dd8e984dc995a8239be3a0f06ef4a4c8c2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 13/45] fix: an explicit vertex count is kept when an adjacency
 is filled

---
 include/nwgraph/adjacency.hpp             | 7 +++++--
 include/nwgraph/containers/compressed.hpp | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index e208427..94e677b 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -114,6 +114,7 @@ public:
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    base::extend_to(N);
   }
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   index_adjacency(size_t N,
@@ -124,6 +125,7 @@ public:
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    base::extend_to(N);
   }
   // customized move constructor
   index_adjacency(std::vector<vertex_id>&& indices,
@@ -185,7 +187,8 @@ auto make_adjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_adjacency(edge_list_t& el, u_integral n, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   adjacency<idx> adj(n);
-  fill<idx>(el, adj, edge_directedness, policy);
+  fill<idx>(el, adj, edge_directedness, false, policy);
+  adj.extend_to(n);
   return adj;
 }
 
@@ -308,7 +311,7 @@ auto make_biadjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_biadjacency(edge_list_t& el, u_integral n0, u_integral n1, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   biadjacency<idx> adj(n0, n1);
-  fill_biadjacency<idx>(el, adj, policy);
+  fill_biadjacency<idx>(el, adj, false, policy);
   return adj;
 }
 
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 9652ce0..36a7f34 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -230,6 +230,13 @@ public:    // fixme
     return i - indices_.begin() - 1;
   }
 
+  // Append vertices without neighbors until there are (at least) N vertices
+  void extend_to(size_t N) {
+    if (size() < N) {
+      indices_.resize(N + 1, indices_.back());
+    }
+  }
+
   void open_for_push_back() {
     assert(to_be_indexed_.size() == 0);
     //If we decide to allow reopen for pushback, this will undo exclusive_scan
-- 
2.43.0


From e6be8b3f08ab6b1e14e3dcb1d24eff76a102b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 14/45] fix: post-increment of column and outer iterators

---
 include/nwgraph/containers/compressed.hpp | 5 ++---
 include/nwgraph/containers/soa.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 36a7f34..bda0761 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -135,11 +135,10 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator++(int) const {
+    my_outer_iterator operator++(int) {
       my_outer_iterator tmp(*this);
       ++i_;
       return tmp;
-      ;
     }
 
     my_outer_iterator& operator--() {
@@ -147,7 +146,7 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator--(int) const {
+    my_outer_iterator operator--(int) {
       my_outer_iterator tmp(*this);
       --i_;
       return tmp;
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 54728ee..3df023f 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -98,10 +98,10 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
-- 
2.43.0


From 8dbb874528771d71d3a1ee0e5305c743adc939b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 15/45] fix: splitting a vertex range partitions it

---
 include/nwgraph/adaptors/vertex_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 4a178cd..5b6f284 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -88,7 +88,7 @@ public:
   vertex_range(vertex_range&&)      = default;
 
   vertex_range(vertex_range& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.end_) {}
+      : begin_(rhs.begin_), end_(rhs.begin_ += rhs.size() / 2) {}
 
   counting_iterator<vertex_id_type> begin() const { return begin_; }
   counting_iterator<vertex_id_type> end() const { return end_; }
@@ -97,7 +97,7 @@ public:
   bool empty() const { return size() == 0; }
 
   /// Runtime check to see if the range is divisible.
-  bool is_divisible() const { return begin_ <= end_; }
+  bool is_divisible() const { return size() > 1; }
 };  // vertex_range
 
 }    // namespace graph
-- 
2.43.0


From 3ae16dda1a3e85a7f8575f0925803529ab11e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 16/45] fix: post-increment of edge range iterators

---
 include/nwgraph/adaptors/edge_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index 14492df..a452cff 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -141,7 +141,7 @@ public:
       return *this;
     }
 
-    my_iterator operator++(int) const {
+    my_iterator operator++(int) {
       my_iterator it = *this;
       ++(*this);
       return it;
-- 
2.43.0


From 17016d426bbca62361779a955b838bcdb6e4240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 17/45] fix: BFS edge range starts at its first tree edge

---
 include/nwgraph/adaptors/bfs_edge_range.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/adaptors/bfs_edge_range.hpp b/include/nwgraph/adaptors/bfs_edge_range.hpp
index 1859239..622c4af 100644
--- a/include/nwgraph/adaptors/bfs_edge_range.hpp
+++ b/include/nwgraph/adaptors/bfs_edge_range.hpp
@@ -146,7 +146,9 @@ public:
 
   public:
     bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      advance();
+    }
 
     bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
         : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
@@ -160,6 +162,16 @@ public:
       Q.push(std::get<0>(*u_begin));
 
       ++u_begin;
+      advance();
+
+      return *this;
+    }
+
+    // Move to the next edge (starting from the current one) whose target has not been visited
+    void advance() {
+      auto& Q      = the_range_.Q_;
+      auto& visited = the_range_.visited_;
+
       while (u_begin != u_end && visited[std::get<0>(*u_begin)] == true) {
         ++u_begin;
       }
@@ -177,8 +189,6 @@ public:
           ++u_begin;
         }
       }
-
-      return *this;
     }
 
     // Better to store v_ as a tuple?
-- 
2.43.0


From 9c3366f40018337b6da2f4e1627a02333e9df25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 18/45] fix: filtered BFS range starts at its first admitted
 edge

---
 include/nwgraph/adaptors/filtered_bfs_range.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/nwgraph/adaptors/filtered_bfs_range.hpp b/include/nwgraph/adaptors/filtered_bfs_range.hpp
index bd7617b..0e2be6c 100644
--- a/include/nwgraph/adaptors/filtered_bfs_range.hpp
+++ b/include/nwgraph/adaptors/filtered_bfs_range.hpp
@@ -57,17 +57,16 @@ public:
         : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()),
           iterator_target_(the_range_.target_), filter_(the_range_.filter_) {
 
-      while (filter_(v_, u_begin)) {
+      while (u_begin != G[v_].end() && (the_range_.colors_[std::get<0>(*u_begin)] != white || filter_(v_, u_begin))) {
         ++u_begin;
-        if (u_begin == G[v_].end()) {
-          the_range_.unreachable = true;
-          break;
-        }
+      }
+      if (u_begin == G[v_].end()) {
+        the_range_.unreachable = true;
       }
     }
 
     filtered_bfs_edge_range_iterator(const filtered_bfs_edge_range_iterator& ite)
-        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), filter_(ite.filter_) {}
+        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), iterator_target_(ite.iterator_target_), filter_(ite.filter_) {}
 
     filtered_bfs_edge_range_iterator& operator++() {
       auto& Q      = the_range_.Q_;
-- 
2.43.0


From 6234e0d0b0a06664931e09d313403dd850e50964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 19/45] fix: dag range stops after its last edge

---
 include/nwgraph/adaptors/dag_range.hpp | 40 ++++++++++----------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/include/nwgraph/adaptors/dag_range.hpp b/include/nwgraph/adaptors/dag_range.hpp
index fdbc1c3..b3af05c 100644
--- a/include/nwgraph/adaptors/dag_range.hpp
+++ b/include/nwgraph/adaptors/dag_range.hpp
@@ -55,38 +55,28 @@ public:
     std::vector<size_t>::iterator successor_iterator;
 
   public:
-    dag_range_iterator(dag_range<Graph>& range)
-        : the_range_(range), v_(the_range_.Q_.front()), successor_iterator(the_range_._successor_list[v_].begin()) {
-      advance_next();
+    dag_range_iterator(dag_range<Graph>& range) : the_range_(range), v_(0) {
+      if (!the_range_.Q_.empty()) {
+        v_                 = the_range_.Q_.front();
+        successor_iterator = the_range_._successor_list[v_].begin();
+        advance_next();
+      }
     }
 
     void advance_next() {
       auto& Q = the_range_.Q_;
       /*Check whether we have processed all the successors of the current vertex*/
-      if (successor_iterator == the_range_._successor_list[v_].end()) {
+      while (successor_iterator == the_range_._successor_list[v_].end()) {
         Q.pop(); /*remove current vertex*/
-        while (!Q.empty()) {
-          v_ = Q.front(); /*If not empty, get the next vertex*/
-          /*If no successor, continue for the next*/
-          if (the_range_._successor_list[v_].size() == 0) {
-            Q.pop();
-            continue;
-          }
-          /*We have to make sure that the last vertex in the queue*/
-          if (the_range_._successor_list[v_].size() > 0) {
-            /*Reset the iterator for the successor list*/
-            successor_iterator = the_range_._successor_list[v_].begin();
-            break;
-          }
-        }
+        if (Q.empty()) return;
+        v_                 = Q.front(); /*If not empty, get the next vertex*/
+        successor_iterator = the_range_._successor_list[v_].begin();
       }
-      if (the_range_._successor_list[v_].size() > 0) {
-        the_range_._ready_to_process = no;
-        the_range_._pred_done_counter[*successor_iterator] += 1;
-        if (the_range_._pred_done_counter[*successor_iterator] == the_range_._predecessor_list[*successor_iterator].size()) {
-          the_range_._ready_to_process = yes;
-          Q.push(*successor_iterator);
-        }
+      the_range_._ready_to_process = no;
+      the_range_._pred_done_counter[*successor_iterator] += 1;
+      if (the_range_._pred_done_counter[*successor_iterator] == the_range_._predecessor_list[*successor_iterator].size()) {
+        the_range_._ready_to_process = yes;
+        Q.push(*successor_iterator);
       }
     }
 
-- 
2.43.0


From 880e655acb5b4886ecda64c86902f5cef8b6dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 20/45] fix: dag_based_mis initialises its output

---
 include/nwgraph/algorithms/dag_based_mis.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nwgraph/algorithms/dag_based_mis.hpp b/include/nwgraph/algorithms/dag_based_mis.hpp
index 2869a13..c482277 100644
--- a/include/nwgraph/algorithms/dag_based_mis.hpp
+++ b/include/nwgraph/algorithms/dag_based_mis.hpp
@@ -36,6 +36,10 @@ namespace graph {
 template <adjacency_list_graph Graph>
 void dag_based_mis(Graph& A, std::vector<bool>& mis) {
   size_t N = A.size();
+
+  /*Every vertex is a candidate until a predecessor in the set excludes it*/
+  mis.assign(N, true);
+
 #ifdef PRINT_DEBUG
   std::cout << "size: " << N << std::endl;
 #endif
-- 
2.43.0


From f7665656e4a382582fbb3ecb7890d91be711a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 21/45] fix: adjacency keyed by the second endpoint is written
 with 1-based ids

---
 include/nwgraph/io/mmio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 430aba4..b69fcd3 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -426,7 +426,7 @@ void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
@@ -458,7 +458,7 @@ void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes..
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
-- 
2.43.0


From 3dfdc5558454c867bf3c504196cfdc5f9586723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 22/45] fix: reading a rectangular matrix covers its columns

---
 include/nwgraph/io/mmio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index b69fcd3..bb0fcbd 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -201,7 +201,7 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
 
   // assert(n0 == n1);
 
-  edge_list<sym, Attributes...> A(n0);
+  edge_list<sym, Attributes...> A(std::max(n0, n1));
   mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
 
   return A;
-- 
2.43.0


From b506caf38837de3717112e6e79052272046d8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 23/45] fix: real values are written to Matrix Market files
 with full precision

---
 include/nwgraph/io/mmio.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index bb0fcbd..194e106 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -414,6 +414,9 @@ void write_mm(const std::string& filename, edge_list<sym, Attributes...>& A, con
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) {
+    outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
+  }
   aos_stream<w_idx>(outputStream, A, file_symmetry, w_type);
 }
 
@@ -446,6 +449,9 @@ void write_mm(const std::string& filename, adjacency<idx, Attributes...>& A, con
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) {
+    outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
+  }
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
 }
 
@@ -478,6 +484,9 @@ void write_mm(const std::string& filename, biadjacency<idx, Attributes...>& A, c
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) {
+    outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
+  }
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
 }
 #if 0
-- 
2.43.0


From 3924dbc7ba005db590d14ccc59509b3884cab6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 24/45] fix: a bipartite graph keyed by the right vertices has
 one entry per right vertex

---
 include/nwgraph/build.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b9125f2..b96c278 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -784,7 +784,7 @@ auto make_plain_bipartite_graph(const V1& left_vertices, const V2& right_vertice
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
@@ -812,7 +812,7 @@ auto make_bipartite_graph(const V& left_vertices, const V& right_vertices, const
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
-- 
2.43.0


From f8b354be5697cd221371adb29d47c921a1dde6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 25/45] fix: an explicit vertex count is kept when a bipartite
 adjacency is made

---
 include/nwgraph/adjacency.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 94e677b..b21d404 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -312,6 +312,7 @@ template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, c
 auto make_biadjacency(edge_list_t& el, u_integral n0, u_integral n1, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   biadjacency<idx> adj(n0, n1);
   fill_biadjacency<idx>(el, adj, false, policy);
+  adj.extend_to(n0);
   return adj;
 }
 
-- 
2.43.0


From abacb7cde999277540e8f5b7229080a442cfa0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:57 +0000
Subject: [PATCH 26/45] fix: make_plain_graph takes edges of any label type

---
 include/nwgraph/build.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b96c278..f38136d 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -667,7 +667,7 @@ template <class M, std::ranges::random_access_range E, class Edge = decltype(std
 auto make_plain_edges(M& map, const E& edges) {
   EdgeList index_edges;
 
-  for (Edge&& e : edges) {
+  for (auto&& e : edges) {
     std::apply([&](auto&& u, auto&& v, auto... props_) { index_edges.push_back(std::make_tuple(map[u], map[v])); }, e);
   }
 
-- 
2.43.0


From ebecd9c5dd4718f464ac45c08ebc8d9db0067ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 27/45] fix: post-increment of zipped iterators

---
 include/nwgraph/containers/zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index a8ed30e..e7fd206 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -102,10 +102,10 @@ struct zipped : std::tuple<Ranges&...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
-- 
2.43.0


From 871486d46c8a718c01a285211edf989164e6419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 28/45] fix: bfs_v2 starts from an empty frontier bitmap

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 9451f0d..13be7fb 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -574,7 +574,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::vector<Vector> nextfrontier(n);
   frontier.reserve(N);
   frontier.push_back(root);
-  nw::graph::AtomicBitVector front(N, false), cur(N);
+  nw::graph::AtomicBitVector front(N), cur(N);
   size_t edges_to_check = out_graph.to_be_indexed_.size();
   size_t scout_count = out_graph[root].size();
   
-- 
2.43.0


From fbd61c503d9f80ea068b9b72080c44f5844476c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 29/45] fix: delta-stepping decides by bin whether a vertex is
 settled

---
 include/nwgraph/algorithms/delta_stepping.hpp          |  4 ++--
 .../nwgraph/experimental/algorithms/delta_stepping.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 12d21cb..4d6180e 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -137,7 +137,7 @@ auto delta_stepping(
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j  = target(graph, elt);
           auto&& wt = weight(elt);
@@ -211,7 +211,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& u) {
-      if (tdist[u] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[u] / delta) >= top_bin) {
         nw::graph::parallel_for(graph[u], [&](auto&& v, auto&& wt) { relax(u, v, wt); });
       }
     });
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 194faf3..10302f5 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -71,7 +71,7 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) { std::apply([&](Id j, auto wt) { relax(i, j, wt); }, std::move(elt)); });
       }
     });
@@ -128,7 +128,7 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(std::execution::par_unseq, frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(std::execution::par_unseq, graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -188,7 +188,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         for (auto&& elt : graph[i]) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -249,7 +249,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
           for (auto&& elt : graph[i]) {
             auto&& j = target(graph, elt);
             auto&& wt = weight(elt);
@@ -311,7 +311,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
           tbb::parallel_for(graph[i], [&](auto&& range) {
             for (auto&& elt : range) {
               auto&& j = target(graph, elt);
-- 
2.43.0


From 7c6f3fb1a34c6021c453d3264538915431fd9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 30/45] fix: disjoint_set::find starts at the given element

---
 include/nwgraph/util/disjoint_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 120e06f..2151da9 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -224,7 +224,7 @@ public:
 
     //non-recursive simple find
     //negative means root
-    volatile T t = 0;
+    volatile T t = index;
     while (0 <= this->sets_[t]) {
       //if (t > this->maxid_ || t < 0) {
       t = this->sets_[t];
-- 
2.43.0


From 0f8a12792cc6e0c83cd50ec876b0ca53da57b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 31/45] fix: copying a disjoint_set does not delete an
 uninitialized pointer

---
 include/nwgraph/util/disjoint_set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 2151da9..9687646 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -130,7 +130,6 @@ public:
       std::cerr << "only support signed number" << std::endl;
       exit(EXIT_FAILURE);
     }
-    delete[] this->sets_;
     this->sets_ = new T[other.maxid_];
     memcpy(this->sets_, other.sets_, sizeof(T) * other.maxid_);
   }
-- 
2.43.0


From d5d9ec391383f6cdbe3d9d13e6016ff4398d6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:17 +0000
Subject: [PATCH 32/45] fix: disjoint_set::getSetSize returns the size of the
 set

---
 include/nwgraph/util/disjoint_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 9687646..00077e3 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -530,7 +530,7 @@ public:
 		 *  @ param[in] u, an element of the set to query
 		 *  @return the size of disjoint set.
 		 */
-  size_t getSetSize(const T u) const { return -find(u); }
+  size_t getSetSize(const T u) const { return -this->sets_[find(u)]; }
   /**
 		 * Overload operator<< for format output.
 		 * @param os, outstream pointer
-- 
2.43.0


From 3e0739c946a5648136a0a5462ca37a84c3d56833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 33/45] fix: resetting a disjoint_set restores the number of
 sets

---
 include/nwgraph/util/disjoint_set.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 00077e3..3a8cea9 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -140,7 +140,10 @@ public:
 		 * Assigns every element to -1.
 		 * Set id is equal to element id.
 		 */
-  void reset() { memset(this->sets_, -1, maxid_ * sizeof(T)); }
+  void reset() {
+    memset(this->sets_, -1, maxid_ * sizeof(T));
+    this->nsets_ = maxid_;
+  }
   /**
 		 * Assigns every element to -1.
 		 * Set id to element id.
-- 
2.43.0


From 7cd46635bcf5b25431468a21625ecff168b78ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:04 +0000
Subject: [PATCH 34/45] fix: traversing a concurrent work list serves every
 item

---
 include/nwgraph/adaptors/worklist.hpp | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/nwgraph/adaptors/worklist.hpp b/include/nwgraph/adaptors/worklist.hpp
index 7235519..2d5c90d 100644
--- a/include/nwgraph/adaptors/worklist.hpp
+++ b/include/nwgraph/adaptors/worklist.hpp
@@ -95,13 +95,13 @@ public:
   class tbbworklist_range_iterator {
   public:
     tbbworklist_range_iterator(tbbworklist_range<Graph, Workitem, Queue>& range) : the_range_(range) {
-      item = the_range_.dummy_;
-      the_range_.Q_.try_pop(item);
+      item      = the_range_.dummy_;
+      has_item_ = the_range_.Q_.try_pop(item);
     }
 
     tbbworklist_range_iterator& operator++() {
-      item = the_range_.dummy_;
-      the_range_.Q_.try_pop(item);
+      item      = the_range_.dummy_;
+      has_item_ = the_range_.Q_.try_pop(item);
       //the_range_.Q_.pop();
       return *this;
     }
@@ -124,12 +124,13 @@ public:
       end_sentinel_type() {}
     };
 
-    auto operator==(const end_sentinel_type&) const { return the_range_.empty(); }
-    bool operator!=(const end_sentinel_type&) const { return !the_range_.empty(); }
+    auto operator==(const end_sentinel_type&) const { return !has_item_; }
+    bool operator!=(const end_sentinel_type&) const { return has_item_; }
 
   private:
     tbbworklist_range<Graph, Workitem, Queue>& the_range_;
     Workitem                                   item;
+    bool                                       has_item_;
   };
 
   typedef tbbworklist_range_iterator iterator;
@@ -179,9 +180,10 @@ public:
             break;
         }
       }*/
-      workunit = the_range_.dummy_;
+      workunit  = the_range_.dummy_;
+      has_item_ = false;
       for (size_t i = 0; i < the_range_.buckets_.size(); ++i) {
-        if (the_range_.buckets_[i].try_pop(workunit)) break;
+        if ((has_item_ = the_range_.buckets_[i].try_pop(workunit))) break;
       }
     }
 
@@ -196,9 +198,10 @@ public:
             return *this;
         }
       }*/
-      workunit = the_range_.dummy_;
+      workunit  = the_range_.dummy_;
+      has_item_ = false;
       for (size_t i = 0; i < the_range_.buckets_.size(); ++i) {
-        if (the_range_.buckets_[i].try_pop(workunit)) return *this;
+        if ((has_item_ = the_range_.buckets_[i].try_pop(workunit))) return *this;
       }
       //the_range_.Q_.pop();
       return *this;
@@ -215,13 +218,14 @@ public:
       end_sentinel_type() {}
     };
 
-    auto operator==(const end_sentinel_type&) const { return the_range_.empty(); }
-    bool operator!=(const end_sentinel_type&) const { return !the_range_.empty(); }
+    auto operator==(const end_sentinel_type&) const { return !has_item_; }
+    bool operator!=(const end_sentinel_type&) const { return has_item_; }
 
   private:
     tbbworklist_range2<Graph, Workitem, Queue>& the_range_;
     //tbb::concurrent_vector<Workitem> buffer_;
     Workitem workunit;
+    bool     has_item_;
   };
 
   typedef tbbworklist_range_iterator2 iterator;
-- 
2.43.0


From 561dbf3c187af4744cb0dd48d99dcdf58c938df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:22 +0000
Subject: [PATCH 35/45] fix: dfs_range visits every vertex once, in the order
 they are finished

---
 include/nwgraph/adaptors/dfs_range.hpp     | 8 ++++----
 include/nwgraph/adaptors/new_dfs_range.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/adaptors/dfs_range.hpp b/include/nwgraph/adaptors/dfs_range.hpp
index 66fd6b8..79581bc 100644
--- a/include/nwgraph/adaptors/dfs_range.hpp
+++ b/include/nwgraph/adaptors/dfs_range.hpp
@@ -59,9 +59,9 @@ private:
       } else {
         ++u;
       }
-      Q.push(v);
-      colors[v] = black;
     }
+    Q.push(v);
+    colors[v] = black;
   }
 
 public:
@@ -80,8 +80,8 @@ public:
       if (!Q.empty()) {
         dfs_visit(G, Q, colors, Q.top());
       } else {
-        while (colors[++cursor_] != white && cursor_ != the_range_.the_graph_.size())
-          ;
+        while (cursor_ != the_range_.the_graph_.size() && colors[cursor_] != white)
+          ++cursor_;
         if (cursor_ != the_range_.the_graph_.size()) {
           Q.push(cursor_);
           colors[cursor_] = grey;
diff --git a/include/nwgraph/adaptors/new_dfs_range.hpp b/include/nwgraph/adaptors/new_dfs_range.hpp
index d57bc7c..f6d58cb 100644
--- a/include/nwgraph/adaptors/new_dfs_range.hpp
+++ b/include/nwgraph/adaptors/new_dfs_range.hpp
@@ -58,9 +58,9 @@ private:
       } else {
         ++u;
       }
-      Q.push(v);
-      colors[v] = black;
     }
+    Q.push(v);
+    colors[v] = black;
   }
 
 public:
@@ -79,8 +79,8 @@ public:
       if (!Q.empty()) {
         dfs_visit(G, Q, colors, Q.top());
       } else {
-        while (colors[++cursor_] != white && cursor_ != the_range_.the_graph_.size())
-          ;
+        while (cursor_ != the_range_.the_graph_.size() && colors[cursor_] != white)
+          ++cursor_;
         if (cursor_ != the_range_.the_graph_.size()) {
           Q.push(cursor_);
           colors[cursor_] = grey;
-- 
2.43.0


From 9e84178d791d9aa64f53fad5d6fb99ca9c474d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:31 +0000
Subject: [PATCH 36/45] fix: dfs_edge_range skips self-loops and seeds without
 neighbors

---
 include/nwgraph/adaptors/dfs_range.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/dfs_range.hpp b/include/nwgraph/adaptors/dfs_range.hpp
index 79581bc..3c1e0ae 100644
--- a/include/nwgraph/adaptors/dfs_range.hpp
+++ b/include/nwgraph/adaptors/dfs_range.hpp
@@ -142,7 +142,12 @@ public:
 
   public:
     dfs_edge_range_iterator(dfs_edge_range<Graph, Stack>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.top()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.top()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      while (u_begin != u_end && the_range_.colors_[std::get<0>(*u_begin)] != white) {
+        ++u_begin;
+      }
+      if (u_begin == u_end) the_range_.Q_.pop();
+    }
 
     dfs_edge_range_iterator& operator++() {
       auto& Q      = the_range_.Q_;
@@ -155,6 +160,7 @@ public:
       u_begin = G[v_].begin();
       u_end   = G[v_].end();
 
+      colors[v_] = grey;
       // ++u_begin;
       while (u_begin != u_end && colors[std::get<0>(*u_begin)] != white) {
         ++u_begin;
-- 
2.43.0


From 8b12a5001161625d2e1b060a9db9109f25305021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:42 +0000
Subject: [PATCH 37/45] fix: bfs_v1, bfs_v2: a queue for every thread

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 13be7fb..167475c 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -469,7 +469,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  // every thread that may take part needs a queue of its own
+  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   const std::size_t                                   N = num_vertices(out_graph);
   const std::size_t                                   M = out_graph.to_be_indexed_.size();
   Vector queue;
@@ -564,7 +565,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  size_t n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  // every thread that may take part needs a queue of its own
+  size_t n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   size_t N = num_vertices(out_graph);
   Vector parents(N);
   constexpr const auto null_vertex = null_vertex_v<vertex_id_type>();
-- 
2.43.0


From 2293f7048db2e6606a36b66157a802d0a5baf60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:56 +0000
Subject: [PATCH 38/45] fix: lpcc, lpcc_cyclic: a frontier for every thread

---
 .../nwgraph/experimental/algorithms/connected_components.hpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 5f658a3..bf25b8f 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -306,6 +306,8 @@ std::vector<T> ccv1(const Graph& g) {
 template<typename Execution, adjacency_list_graph Graph, typename T = vertex_id_t<Graph>>
 std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
   //nw::util::life_timer _(__func__);
+  // every thread that may take part needs a frontier of its own
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());
   size_t     num_nodes = g.size();
   std::vector<T> comp(num_nodes);
   nw::graph::AtomicBitVector   visited(num_nodes);
@@ -369,6 +371,8 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
 template<typename Execution, adjacency_list_graph Graph, typename T = vertex_id_t<Graph>>
 std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
   //nw::util::life_timer _(__func__);
+  // every thread that may take part needs a frontier of its own
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());
   size_t     num_nodes = g.size();
   std::vector<T> comp(num_nodes);
   nw::graph::AtomicBitVector   visited(num_nodes);
-- 
2.43.0


From 750d8b3f80cd6a5e59a2c5fe26099de4544b291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 39/45] fix: bench: random sources are existing vertices

---
 bench/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/common.hpp b/bench/common.hpp
index a5e378a..c724951 100644
--- a/bench/common.hpp
+++ b/bench/common.hpp
@@ -126,7 +126,7 @@ auto build_random_sources(const Graph& graph, size_t n, long seed) {
   auto sources = std::vector<Id>(n);
   auto degrees = build_degrees(graph);
   auto gen     = std::mt19937(seed);
-  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph));
+  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph) - 1);
 
   for (auto& id : sources) {
     for (id = dis(gen); degrees[id] == 0; id = dis(gen)) {
-- 
2.43.0


From 80d0f437df2f3ecdab899b8453664d0fb02ace53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:34 +0000
Subject: [PATCH 40/45] fix: bench: print no more ranks than there are vertices

---
 bench/bc.cpp | 2 +-
 bench/pr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 512b0e1..72c5449 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -54,7 +54,7 @@ using accum_t = double;
 template <typename Vector>
 void print_n_ranks(const Vector& centrality, size_t n) {
   auto perm = proxysort<size_t>(centrality, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0, e = std::min(n, perm.size()); i < e; ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(centrality[perm[i]]) << std::endl;
   }
 }
diff --git a/bench/pr.cpp b/bench/pr.cpp
index 1ba3aa1..035484d 100644
--- a/bench/pr.cpp
+++ b/bench/pr.cpp
@@ -46,7 +46,7 @@ using namespace nw::util;
 template <typename Vector>
 void print_n_ranks(const Vector& rankings, size_t n) {
   auto perm = proxysort<size_t>(rankings, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0, e = std::min(n, perm.size()); i < e; ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(rankings[perm[i]]) << std::endl;
   }
 }
-- 
2.43.0


From 133d8ba4583ad1a87006beb53ee6a18905e89afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:47 +0000
Subject: [PATCH 41/45] fix: sssp.exe: a source for every iteration

---
 bench/sssp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 238712f..a2459fe 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -182,10 +182,10 @@ int main(int argc, char* argv[]) {
     sources = load_sources_from_file(graph, args["--sources"].asString());
     assert(size_t(trials * iterations) <= sources.size());
   } else if (args["-r"]) {
-    sources.resize(trials);
+    sources.resize(trials * iterations);
     std::fill(sources.begin(), sources.end(), args["-r"].asLong());
   } else {
-    sources = build_random_sources(graph, trials, args["--seed"].asLong());
+    sources = build_random_sources(graph, trials * iterations, args["--seed"].asLong());
   }
 
   Times times;
-- 
2.43.0


From 4105a45fd6819aece9ed7af7886e452a2e6d8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:15 +0000
Subject: [PATCH 42/45] fix: sssp.exe: unreachable vertices in the verifier

---
 bench/sssp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index a2459fe..3673481 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -59,7 +59,7 @@ static auto dijkstra(const Graph& graph, vertex_id_t<Graph> source,
 
 
   // Distances
-  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max()/4);
+  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max());
 
   // Workqueue
   //  using WN = std::tuple<vertex_id_type, distance_t>;
-- 
2.43.0


From 3dc0ba1b50a6082bba8fb911acc8ccd9e6f7e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:46 +0000
Subject: [PATCH 43/45] fix: MatrixMarketFile: values of an entry in order

---
 include/nwgraph/io/MatrixMarketFile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 73554d6..c91e474 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -155,7 +155,7 @@ public:
       const char* i = i_;
       int         u = get<int>(i) - 1;
       int         v = get<int>(i) - 1;
-      return std::tuple(u, v, get<Vs>(i)...);
+      return std::tuple<int, int, Vs...>{u, v, get<Vs>(i)...};    // braces: read in order
     }
 
     iterator& operator++() {
-- 
2.43.0


From f706813d5f5bdd636740998f4cb3afcb0fcbe77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:49 +0000
Subject: [PATCH 44/45] fix: MatrixMarketFile: first entry after an empty line
 before the sizes

---
 include/nwgraph/io/MatrixMarketFile.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index c91e474..0d69959 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -91,6 +91,11 @@ public:
       goto error;
     }
 
+    // The sizes may have been read from a later line, up to its last digit.
+    while (i_ < e_ && base_[i_ - 1] != '\n') {
+      ++i_;
+    }
+
     return;
 
   error:
-- 
2.43.0


From 213dbe9ce3b7b900aabbe813a58fd0d863e133c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:55 +0000
Subject: [PATCH 45/45] fix: MatrixMarketFile: last line without a newline

---
 include/nwgraph/io/MatrixMarketFile.hpp | 28 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 0d69959..9963562 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -14,10 +14,12 @@
 #ifndef NW_GRAPH_MATRIXMARKETFILE_HPP
 #define NW_GRAPH_MATRIXMARKETFILE_HPP
 
+#include <cctype>
 #include <cstdio>
 #include <cstring>
 #include <fcntl.h>
 #include <filesystem>
+#include <string>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -49,6 +51,7 @@ class MatrixMarketFile final {
   char* base_ = nullptr;    // base pointer to mmap-ed file
   long  i_    = 0;          // byte offset of the first edge
   long  e_    = 0;          // bytes in the mmap-ed file
+  long  l_    = 0;          // byte offset of the end of the last edge
 
   MM_typecode type_;
 
@@ -96,6 +99,12 @@ public:
       ++i_;
     }
 
+    // The last line may lack a newline, or be followed by empty ones.
+    l_ = e_;
+    while (i_ < l_ && std::isspace(static_cast<unsigned char>(base_[l_ - 1]))) {
+      --l_;
+    }
+
     return;
 
   error:
@@ -135,6 +144,7 @@ public:
   template <typename... Vs>
   class iterator {
     const char* i_;
+    const char* e_;    // end of the last edge
 
     /// Read the next token in the stream as a U, and update the pointer.
     ///
@@ -154,17 +164,23 @@ public:
     }
 
   public:
-    iterator(const char* i) : i_(i) {}
+    iterator(const char* i, const char* e) : i_(i), e_(e) {}
 
     std::tuple<int, int, Vs...> operator*() const {
       const char* i = i_;
+      std::string last;    // the file may end right after the last line
+      if (!std::memchr(i_, '\n', e_ - i_)) {
+        last.assign(i_, e_);
+        i = last.c_str();
+      }
       int         u = get<int>(i) - 1;
       int         v = get<int>(i) - 1;
       return std::tuple<int, int, Vs...>{u, v, get<Vs>(i)...};    // braces: read in order
     }
 
     iterator& operator++() {
-      ++(i_ = std::strchr(i_, '\n'));
+      auto nl = static_cast<const char*>(std::memchr(i_, '\n', e_ - i_));
+      i_      = nl ? nl + 1 : e_;
       return *this;
     }
 
@@ -173,12 +189,12 @@ public:
 
   template <typename... Vs>
   iterator<Vs...> begin() const {
-    return {base_ + i_};
+    return {base_ + i_, base_ + l_};
   }
 
   template <typename... Vs>
   iterator<Vs...> end() const {
-    return {base_ + e_};
+    return {base_ + l_, base_ + l_};
   }
 
   template <typename... Vs>
@@ -189,12 +205,12 @@ public:
     // Use the edge id to come up with an approximation of the byte to start
     // searching at, and then search backward to find the byte offset of the
     // nearest edge.
-    long approx = (double(edge) / double(nnz_)) * (e_ - i_) + i_;
+    long approx = (double(edge) / double(nnz_)) * (l_ - i_) + i_;
     while (i_ <= approx && base_[approx] != '\n') {
       --approx;
     }
     ++approx;
-    return {base_ + approx};
+    return {base_ + approx, base_ + l_};
   }
 };
 
-- 
2.43.0

