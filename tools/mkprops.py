#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    at = lambda f: f if f.startswith("bench/") else "include/nwgraph/" + f
    a = {"files": [at(f) for f in files],
         "mechanism": [{"name": n, "where": at(w)} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "An edge list is exactly the sequence of edges appended to it",
 "After any sequence of opening, appending (as separate values or as a tuple), reserving, resizing and closing operations on a directed, undirected or bipartite edge list, iterating it yields exactly the appended edges with their attributes in append order, and its size and edge count equal the number of edges. After closing, the number of vertices (per partition for a bipartite list) is the larger of the declared cardinality and one more than the largest endpoint ever appended, and it never decreases.",
 ["histories", "inputs"], "every sequence of edge-list operations, every declared cardinality, every edge and attribute value, for plain, attributed, directed, undirected and bipartite lists",
 "edge_list_test and size_test run a handful of fixed operation sequences; the cardinality bookkeeping depends on the whole history of open/append/close/resize calls",
 ["edge_list.hpp", "graph_base.hpp", "containers/soa.hpp"],
 [("append and vertex-cardinality bookkeeping", "edge_list.hpp: index_edge_list::push_back/close_for_push_back"), ("column storage", "containers/soa.hpp: struct_of_arrays::push_back/resize/reserve")],
 "columns of the structure of arrays, vertex_cardinality, is_open", "public accessors after every call")

prop("C02", "A compressed adjacency holds exactly the edges of its edge list",
 "Building a compressed (CSR) adjacency from an edge list, keyed by either endpoint, yields per vertex exactly the multiset of (neighbor, attributes) pairs of the incident edges: one entry per edge when directed and one at each endpoint when undirected, with attributes staying attached to their neighbor. The outer size, the number of vertices, the distance from begin to end, the number of edges and the degrees all agree with that edge list, and when sorted adjacency is requested each neighbor list is in ascending neighbor order with the same pairs.",
 ["inputs", "configurations"], "every edge list (empty, isolated vertices, self-loops, parallel edges, any attribute types), either key, directed and undirected, sorted or not, sequential or parallel policy, with or without explicit vertex count; also graphs assembled by push_back or from ready-made index/neighbor vectors",
 "the tests build a few fixed data files and compare sizes; nothing quantifies over edge lists, keys, attribute columns and the sorted flag together",
 ["build.hpp", "adjacency.hpp", "containers/compressed.hpp", "containers/zip.hpp"],
 [("degree count, prefix sum and zipped sort", "build.hpp: fill_directed/fill_undirected/fill"), ("CSR container", "containers/compressed.hpp: indexed_struct_of_arrays"), ("constructors", "adjacency.hpp: index_adjacency")],
 "indices_, to_be_indexed_, N_", "outer/inner iteration, size(), num_vertices, num_edges, degree after construction")

prop("C03", "Bipartite, list-based and standard-container graphs hold their edges",
 "Biadjacency structures built from a bipartite edge list (keyed by either side), list-of-list and vector-of-vector adjacency structures built from an edge list (keyed by its first endpoint), and the graphs produced by the builders that turn plain containers of uniquely labelled vertices and edges into index, plain, property or bipartite graphs (and the join of two such graphs) contain exactly the neighbor entries implied by the input edges, in both orientations where two graphs are produced. The number of outer entries equals the cardinality of the keyed vertex set.",
 ["inputs", "configurations"], "every bipartite or unipartite edge list, either key, every labelled vertex container and edge container, directed or undirected",
 "vov, volos and the std-container examples are checked on one or two fixed graphs and mostly for size only",
 ["adjacency.hpp", "volos.hpp", "vovos.hpp", "build.hpp"],
 [("biadjacency", "adjacency.hpp: index_biadjacency / build.hpp: fill_biadjacency"), ("adjacency lists", "build.hpp: fill_adj_list, push_back_fill"), ("builders", "build.hpp: make_plain_graph, make_index_graph, make_property_graph, make_bipartite_graph(s), join")],
 observe="iteration over the returned graph")

prop("C04", "Edge-list and adjacency clean-up passes do exactly what they name",
 "Sorting (plain, stable, lexical) by an endpoint permutes the edges with their attributes into the requested order; making a list triangular only swaps endpoints so that each edge lies on the requested side; removing self-loops and removing adjacent duplicates keep exactly the other edges; triangularizing an adjacency keeps exactly the entries on the requested side in their order; degree queries count exactly the incident entries. None of them loses, invents or detaches an edge or attribute.",
 ["inputs", "configurations"], "every edge list with attributes, either key index, predecessor or successor side, sequential or parallel policy",
 "tests apply these passes to one data file on the way to another result and never compare the edge multiset before and after",
 ["build.hpp", "containers/compressed.hpp", "containers/soa.hpp"],
 [("sorts", "build.hpp: sort_by, stable_sort_by, lexical_sort_by, lexical_stable_sort_by"), ("clean-up", "build.hpp: swap_to_triangular, uniq, remove_self_loops"), ("triangularize", "containers/compressed.hpp: triangularize_"), ("degrees", "build.hpp: degrees; containers/compressed.hpp: degrees")],
 observe="edge sequence or adjacency after the pass")

prop("C05", "Relabelling and degree permutation produce an isomorphic graph",
 "Relabelling an edge list by a permutation or by degree, and permuting or sorting a compressed adjacency by degree, rename vertices by a bijection and otherwise keep every edge and its attributes: applying the returned map to the original graph gives exactly the new graph. The degree permutation lists the vertices in the requested ascending or descending degree order.",
 ["inputs", "configurations"], "every graph, every permutation, ascending and descending, unipartite and bipartite",
 "no test relabels a graph and compares it with the original; involutive permutations hide direction mistakes",
 ["build.hpp", "containers/compressed.hpp", "containers/soa.hpp", "containers/zip.hpp"],
 [("edge-list relabel", "build.hpp: relabel, relabel_by_degree, perm_by_degree"), ("adjacency permutation", "containers/compressed.hpp: permute_by_degree, relabel_to_be_indexed, sort_by_degree"), ("column permutation", "containers/soa.hpp: struct_of_arrays::permute")],
 observe="returned permutation and resulting graph")

prop("C06", "Binary serialization round-trips every graph container",
 "Writing an edge list, adjacency, biadjacency or structure of arrays in the library's binary format and reading it back, through a file or a stream, into an object of the same type reproduces the same edges, attributes, order, sizes and vertex counts, and the reloaded object behaves like the original under iteration.",
 ["inputs", "histories"], "every container content including empty ones and several attribute columns of different widths, and several objects written back to back in one stream",
 "binio is only an example program; no test reloads what it wrote",
 ["edge_list.hpp", "adjacency.hpp", "containers/compressed.hpp", "containers/soa.hpp", "graph_base.hpp"],
 [("column format", "containers/soa.hpp: struct_of_arrays::serialize/deserialize"), ("CSR format", "containers/compressed.hpp: serialize/deserialize"), ("cardinality header", "graph_base.hpp: serialize/deserialize")],
 observe="projection of the reloaded object")

prop("C07", "Matrix Market files are read and written faithfully",
 "Reading a coordinate Matrix Market file yields exactly the entries of the file with 0-based ids and, when requested, their values, and a vertex count covering the stated dimensions; a symmetric file read as a directed list yields both orientations of each off-diagonal entry and the diagonal entries once, and read as an undirected list yields each stored entry once. Writing an edge list or adjacency (directed or undirected, with or without values, marked general or symmetric) writes exactly its entries with 1-based ids and unrounded values, so that reading the file back yields the same edges and values.",
 ["inputs"], "every well-formed coordinate file: pattern/integer/real, general/symmetric, comments, any dimensions, any number of entries including none, and every graph written",
 "mmio_test reads three fixed files and checks sizes",
 ["io/mmio.hpp"],
 [("reader", "io/mmio.hpp: read_mm, mm_fill, mm_fill_adjacency, read_mm_vector"), ("writer", "io/mmio.hpp: write_mm, aos_stream, adjacency_stream")],
 observe="edges of the list read, text of the file written")

prop("C08", "Structure/array-of-arrays containers and zips act as sequences of records",
 "A structure of arrays, array of structures or zipped group of columns behaves as one sequence of records: pushing, resizing, indexing, iterator arithmetic and comparison, assigning and swapping through iterators, copying, comparing containers of equal size, and standard algorithms such as sort, stable sort, rotate, reverse, partition and unique run on its iterators act on whole records, as they would on a vector of tuples. Proxy sorts return a permutation that lists the keys in the requested order.",
 ["histories", "inputs"], "every sequence of container operations and every algorithm applied through the iterators, any number of columns",
 "aos_test/soa_test use ten fixed elements; tearing of records shows only for particular contents and algorithms",
 ["containers/soa.hpp", "containers/aos.hpp", "containers/zip.hpp", "util/proxysort.hpp", "util/permutation_iterator.hpp", "util/tuple_hack.hpp"],
 [("iterator", "containers/soa.hpp: soa_iterator; containers/zip.hpp: zipped iterator"), ("proxy swap", "util/tuple_hack.hpp"), ("proxy sort", "util/proxysort.hpp: proxysort")],
 observe="records read back through begin()/end() after each call")

prop("C09", "Vertex, neighbor and edge ranges enumerate the graph exactly once",
 "The vertex range, plain range, neighbor range and edge range of a graph, and its outer and inner iterators forwards or backwards, visit every vertex, every (vertex, neighbor list) pair and every (source, target, selected attributes) triple exactly once, in order, including vertices without neighbors at any position. The sizes of vertex, plain and neighbor ranges agree with what they enumerate.",
 ["inputs", "configurations"], "every graph, with empty neighbor lists at the front, in the middle and at the end, any selection of edge attributes, compressed and standard-container graphs",
 "edge_range and neighbor_range examples only print; the tests' graphs have few isolated vertices",
 ["adaptors/edge_range.hpp", "adaptors/neighbor_range.hpp", "adaptors/plain_range.hpp", "adaptors/vertex_range.hpp", "containers/compressed.hpp"],
 [("edge range", "adaptors/edge_range.hpp: edge_range"), ("neighbor range", "adaptors/neighbor_range.hpp"), ("plain range", "adaptors/plain_range.hpp"), ("vertex range", "adaptors/vertex_range.hpp")],
 observe="sequence produced by begin()..end()")

prop("C10", "Splitting a parallel range partitions it exactly",
 "Whatever sequence of splits a scheduler applies to a divisible range of the library (splittable, cyclic, cyclic-neighbor, neighbor, edge, vertex, plain and bit-vector ranges), the resulting pieces visit every element of the original range exactly once between them. Consequently the library's parallel for-each and parallel reduction helpers apply the operation exactly once per element and, for an associative and commutative reduction started from its identity, return the reduction of all results, whatever the number of threads.",
 ["schedules", "inputs", "histories"], "every tree of splits at every divisible node, every size, stride and cutoff",
 "the tests see only the splits TBB happens to make on tiny inputs, which is usually none",
 ["adaptors/splittable_range_adaptor.hpp", "adaptors/cyclic_range_adaptor.hpp", "adaptors/cyclic_neighbor_range.hpp", "adaptors/neighbor_range.hpp", "adaptors/edge_range.hpp", "adaptors/vertex_range.hpp", "adaptors/plain_range.hpp", "util/AtomicBitVector.hpp", "util/parallel_for.hpp"],
 [("split constructors", "adaptors/*: (range&, tbb::split)"), ("parallel helpers", "util/parallel_for.hpp: parallel_for, parallel_reduce")],
 observe="elements visited by each leaf of the split tree")

prop("C11", "Sequential traversal ranges visit exactly the reachable part in order",
 "The breadth-first ranges (vertex and edge versions) and the filtered breadth-first range started at a vertex visit every vertex reachable from it (through edges the filter admits) exactly once and nothing else, in order of non-decreasing distance, the edge versions yielding for every such non-root vertex exactly one tree edge from an already visited vertex; the filtered range may stop once its target is reached and finds it exactly when it is reachable. Following the recorded tree back from a target yields a path to the start. The DAG range yields every edge of an acyclic graph once, the edges into a vertex before those out of it, a random walk follows edges of the graph, and the back-edge range adds exactly the missing reverse edges of a simple loop-free graph and finds the reverse of each edge.",
 ["inputs"], "every graph and start vertex, including isolated start vertices, self-loops, parallel edges, unreachable parts and cycles, and every filter",
 "bfs tests use one small connected graph",
 ["adaptors/bfs_range.hpp", "adaptors/bfs_edge_range.hpp", "adaptors/filtered_bfs_range.hpp", "adaptors/reverse.hpp", "adaptors/dag_range.hpp", "adaptors/random_range.hpp", "adaptors/back_edge_range.hpp"],
 [("BFS ranges", "adaptors/bfs_range.hpp, bfs_edge_range.hpp"), ("DAG, random-walk and back-edge ranges", "adaptors/dag_range.hpp, random_range.hpp, back_edge_range.hpp"), ("filtered BFS and path reversal", "adaptors/filtered_bfs_range.hpp, reverse.hpp")],
 observe="sequence of vertices/edges produced")

prop("C12", "Breadth-first search returns a valid BFS tree under every schedule",
 "For every graph and root, the parent array returned by the sequential, top-down, bottom-up and direction-optimizing breadth-first searches marks exactly the vertices reachable from the root, makes the root its own parent, and gives every other reached vertex a parent that has an edge to it and lies exactly one level closer to the root. This holds for every interleaving of the parallel work and every tuning parameter, and the BFS verifier accepts exactly such arrays.",
 ["inputs", "schedules", "configurations"], "every directed or undirected graph, every root, every interleaving of parallel iterations, every legal number of bins, alpha and beta",
 "bfs tests run one small graph with default parameters; direction switches and races on the parent array never occur there",
 ["algorithms/bfs.hpp", "experimental/algorithms/bfs.hpp", "util/AtomicBitVector.hpp", "util/atomic.hpp"],
 [("sequential and direction-optimizing BFS", "algorithms/bfs.hpp: bfs"), ("top-down, bottom-up and bitmap variants", "experimental/algorithms/bfs.hpp")],
 "parents array, frontier queues and bitmaps", "returned parent array")

prop("C13", "Shortest-path algorithms return exact distances under every schedule",
 "For every graph with positive edge weights, every source and every bucket width, delta-stepping (the sequential and parallel variants, the experimental v6 and v8 run sequentially) and Dijkstra return for each vertex the length of a shortest path from the source, and the infinite value of the distance type for exactly the unreachable vertices. This holds for every interleaving of the parallel relaxations.",
 ["inputs", "schedules", "configurations"], "every directed weighted graph, integral and floating distances, every source, every delta, every interleaving",
 "no delta-stepping test exists and Dijkstra is only an example; lost relaxations need particular interleavings and weights",
 ["algorithms/delta_stepping.hpp", "algorithms/dijkstra.hpp", "experimental/algorithms/delta_stepping.hpp", "util/atomic.hpp"],
 [("delta-stepping", "algorithms/delta_stepping.hpp: delta_stepping, delta_stepping_m1"), ("experimental variants", "experimental/algorithms/delta_stepping.hpp: v8..v11"), ("Dijkstra", "algorithms/dijkstra.hpp: dijkstra")],
 "tentative distances, bins", "returned distance vector")

prop("C14", "Connected components labels equal exactly the connected partition",
 "For every graph (together with its transpose when directed), the labels returned by Afforest (both versions), by Shiloach-Vishkin (v6, v8, v9) and, for symmetric graphs, by label propagation (lpcc, ccv5) are equal for two vertices exactly when the vertices are connected ignoring edge direction, and every label is the id of a vertex in that component. This holds for every interleaving of the parallel linking and compression and every number of sampling rounds, and the component verifier accepts exactly the correct labelings.",
 ["inputs", "schedules", "configurations"], "every graph incl. isolated vertices, self-loops and several components; every interleaving; every neighbor-round count",
 "the test uses one connected 8-vertex graph and never runs Afforest",
 ["algorithms/connected_components.hpp", "experimental/algorithms/connected_components.hpp", "util/atomic.hpp"],
 [("link/compress", "algorithms/connected_components.hpp: link, compress, afforest, CCVerifier"), ("SV and label propagation", "experimental/algorithms/connected_components.hpp: sv_v6, sv_v8, sv_v9, lpcc, Afforest")],
 "component label array", "returned label vector")

prop("C15", "Triangle counts and neighbor-set intersections are exact",
 "On a triangular adjacency with sorted duplicate-free neighbor lists every triangle-counting algorithm, in the orientation it is written for, returns exactly the number of vertex triples that are pairwise adjacent, whatever the number of threads, execution policies and stride. The intersection-size helper returns exactly the number of common elements of two sorted ranges (with multiplicity).",
 ["inputs", "schedules", "configurations"], "every simple undirected graph stored upper- or lower-triangular as each version requires, every thread count and stride, every pair of sorted ranges",
 "tc_test counts one data file (karate) per version",
 ["algorithms/triangle_count.hpp", "experimental/algorithms/triangle_count.hpp", "util/intersection_size.hpp"],
 [("triangle counting", "algorithms/triangle_count.hpp; experimental/algorithms/triangle_count.hpp"), ("intersection", "util/intersection_size.hpp: intersection_size")],
 observe="returned count")

prop("C16", "Kruskal and Prim return an optimal spanning forest",
 "For every weighted undirected edge list and every comparison, Kruskal's algorithm returns a subset of the input edges that is acyclic, connects exactly the pairs the input connects, and has the minimum (or, with the reversed comparison, maximum) total weight; the input edges themselves are not lost. Prim's algorithm returns predecessors that form such an optimal tree of the source's component and nothing outside it.",
 ["inputs"], "every weighted edge list: connected or not, sparse or dense, ties, parallel edges, self-loops, isolated vertices",
 "the test checks the total weight of one connected graph that has more edges than vertices",
 ["algorithms/kruskal.hpp", "util/disjoint_set.hpp"],
 [("Kruskal", "algorithms/kruskal.hpp: kruskal"), ("union-find", "util/disjoint_set.hpp: disjoint_union_find")],
 observe="returned edge list")

prop("C17", "Independent-set algorithms return maximal independent sets",
 "For every loop-free undirected graph stored symmetrically the maximal-independent-set algorithm returns a set of pairwise non-adjacent vertices to which no further vertex can be added; the DAG-based version does the same for a graph stored as a triangular DAG. This holds whatever the output contained before and for every parallel schedule.",
 ["inputs", "schedules"], "every loop-free graph including isolated vertices and several components",
 "mis_test checks one graph against one expected answer",
 ["algorithms/maximal_independent_set.hpp", "algorithms/dag_based_mis.hpp", "adaptors/dag_range.hpp"],
 [("greedy MIS", "algorithms/maximal_independent_set.hpp"), ("DAG MIS", "algorithms/dag_based_mis.hpp")],
 observe="returned set")

prop("C18", "Jones-Plassmann colouring is proper",
 "For every loop-free graph stored symmetrically, the Jones-Plassmann colouring assigns every vertex a colour such that no two adjacent vertices share a colour, whatever colours the output held before.",
 ["inputs", "schedules"], "every loop-free graph in the documented storage, any prior content of the output colours",
 "jp_coloring_test uses one bipartite 8-vertex graph",
 ["algorithms/jones_plassmann_coloring.hpp", "experimental/algorithms/jones_plassmann_coloring.hpp"],
 [("colouring", "algorithms/jones_plassmann_coloring.hpp; experimental/algorithms/jones_plassmann_coloring.hpp")],
 observe="colour vector")

prop("C19", "Betweenness centrality equals the sum of Brandes dependencies",
 "The sequential betweenness algorithm returns for every vertex the sum over ordered source-target pairs of the fraction of shortest paths that pass through it as an inner vertex; the parallel algorithm (floating-point scores and path counts) returns the sum of the dependencies of the given sources on each vertex (the source's own included), under every schedule and thread count, counting parallel edges as distinct paths. With normalization, scores are divided by the largest score (if it is positive), and the verifier accepts exactly the correct scores; the experimental variants (approx_betweenness_brandes and _worklist, bc2_v0, v1, v3, v4) compute one of these two sums over their sources.",
 ["inputs", "schedules", "configurations"], "every graph, every list of sources (with repetitions), every thread/bin count, normalized or not",
 "no test runs betweenness centrality at all",
 ["algorithms/betweenness_centrality.hpp", "experimental/algorithms/betweenness_centrality.hpp"],
 [("Brandes", "algorithms/betweenness_centrality.hpp: brandes_bc, exact_brandes_bc, BCVerifier")],
 "levels, path counts, successor bits, dependencies", "returned scores")

prop("C20", "PageRank returns the converged damped fixpoint",
 "For every graph in which every vertex has an out-edge, PageRank (page_rank and the experimental variants that compute the same formula) run until its tolerance is met returns nonnegative scores that sum to one (up to the tolerance) and satisfy, up to the tolerance, score(v) = (1-d)/N + d times the sum over in-neighbors u of score(u)/outdegree(u). This holds for every schedule.",
 ["inputs", "schedules"], "every such graph including parallel edges and self-loops, every damping factor in (0,1), every schedule",
 "page_rank_test compares one graph's ranking with stored values",
 ["algorithms/page_rank.hpp", "experimental/algorithms/page_rank.hpp"],
 [("PageRank", "algorithms/page_rank.hpp: page_rank")],
 observe="score vector")

prop("C21", "The sparse matrix product equals its mathematical result",
 "The sparse product of two compressed matrices (spMatspMat), and of one with the transpose of another (spMatspMatT), yields exactly the entries of the mathematical product, over the given semiring operations, whose index sets meet, each with the correct value, in the expected positions. The element-wise intersection helper of sorted index/value sequences combines exactly the entries at equal indices.",
 ["inputs"], "every pair of sparse matrices with sorted rows and conforming inner dimension, including empty rows and zero matrices",
 "spMatspMat_test is tagged in a way that it never runs",
 ["algorithms/spMatspMat.hpp"],
 [("product", "algorithms/spMatspMat.hpp: spMatspMat, spMatspMatT, set_ewise_intersection")],
 observe="returned edge list")

prop("C22", "Jaccard similarity weights are exact",
 "After the Jaccard pass over an undirected simple graph stored as an adjacency with sorted neighbor lists, every entry (u,v) with u < v carries |N(u) & N(v)| / |N(u) | N(v)| in the selected attribute, nothing else changes, and the number of edges rated is returned.",
 ["inputs"], "every simple undirected graph with at least one edge",
 "jaccard is only an example program",
 ["algorithms/jaccard.hpp", "util/intersection_size.hpp"],
 [("Jaccard", "algorithms/jaccard.hpp: jaccard_similarity")],
 observe="edge attribute after the call")

prop("C23", "Disjoint sets track exactly the merged partition",
 "After any sequence of unions and finds on the pair functions (disjoint_find, disjoint_union, disjoint_union_find) or the disjoint_set class (unions by size, by height and unguided, sets, sizes, labels, counts), two elements have the same representative exactly when the sequence connected them, the representative is a member of the set, finds do not change the partition, and a union reports or leaves the structure consistent even when both elements were already joined. Sizes, set counts and labels reported by the class are those of the partition.",
 ["histories"], "every sequence of union, find and union-if-different operations over any number of elements",
 "no test exercises the disjoint-set helpers directly",
 ["util/disjoint_set.hpp"],
 [("path-compressed find and union by rank", "util/disjoint_set.hpp: disjoint_find, disjoint_union, disjoint_union_find")],
 "parent/rank arrays", "representatives of all elements after each call")

prop("C24", "The atomic bit vector and atomic helpers are linearizable",
 "Concurrent sets of bits never lose a set, exactly one of several concurrent setters of a bit sees it clear (a clear bit is reported as zero, a set one as nonzero), a get after a completed set sees the bit, clearing empties the vector, moving a vector moves its content, and iterating the set bits (whole or split in pieces) yields exactly the set positions in ascending order. The library's atomic load, store, compare-and-swap, fetch-add and fetch-or wrappers behave as indivisible operations on atomic and plain integral and floating-point variables.",
 ["schedules", "histories", "inputs"], "every interleaving of concurrent operations, every vector length (not only multiples of the word size), every word type",
 "no test touches the bit vector or the atomic helpers",
 ["util/AtomicBitVector.hpp", "util/atomic.hpp"],
 [("bit operations", "util/AtomicBitVector.hpp: get/set/atomic_get/atomic_set/clear"), ("set-bit iteration", "util/AtomicBitVector.hpp: non_zero_iterator, non_zero_range"), ("atomic wrappers", "util/atomic.hpp: load/store/cas/fetch_add/fetch_or")],
 "data words", "return values and content")

prop("C25", "Maximum-flow algorithms return the value of a minimum cut",
 "For every capacitated graph, source and sink the maximum-flow algorithms return the capacity of a minimum cut.",
 ["inputs"], "every capacitated graph",
 "the max-flow tests are commented out",
 ["algorithms/max_flow.hpp", "algorithms/boykov_kolmogorov.hpp"],
 [("max flow", "algorithms/max_flow.hpp: max_flow; algorithms/boykov_kolmogorov.hpp: bk_maxflow")],
 observe="returned flow value")

prop("C26", "k-core decomposition removes exactly the vertices outside the k-core",
 "For every symmetric simple graph and every k, the k-core algorithm finds the maximal subgraph in which every vertex has degree at least k: it returns its number of vertices, and reports as removed exactly the edges with an endpoint outside it, each once as (smaller, larger) endpoint.",
 ["inputs"], "every undirected graph and k",
 "the k-core tests are commented out",
 ["algorithms/k_core.hpp"],
 [("k-core", "algorithms/k_core.hpp: k_core")],
 observe="returned vertex count")

prop("C27", "Work lists serve every item exactly once and in order",
 "Traversing a work list serves every item pushed before or during the traversal exactly once, then ends with the list empty: in the order of the pushes, or, on the list with levels, always the first pushed of the lowest non-empty level. Several threads that traverse one of the concurrent lists and push to it meanwhile together serve every item exactly once.",
 ["inputs", "schedules"], "every sequence of pushes and traversals, every item type and, for the concurrent lists, every interleaving of the traversing threads",
 "no test uses the work lists",
 ["adaptors/worklist.hpp"],
 [("work lists", "adaptors/worklist.hpp: worklist_range, tbbworklist_range, tbbworklist_range2")],
 observe="items served by traversals")

prop("C28", "Depth-first ranges follow the depth-first search",
 "The depth-first vertex range visits every vertex exactly once, in the order in which the depth-first search from the seed, continued from the unvisited vertices in ascending order and following neighbors in stored order, finishes them; on an acyclic graph every vertex therefore comes after all its neighbors. The depth-first edge range yields exactly the tree edges (source, neighbor, attributes) of the search from its seed, in the order they are followed.",
 ["inputs"], "every graph, storage, seed, including self-loops, parallel edges, unreachable vertices and seeds without neighbors",
 "the only test prints the edges of one graph and asserts nothing; the vertex range and the edge range of dfs_range.hpp are never instantiated",
 ["adaptors/dfs_range.hpp", "adaptors/new_dfs_range.hpp"],
 [("vertex range", "adaptors/dfs_range.hpp, adaptors/new_dfs_range.hpp: dfs_range"), ("edge range", "adaptors/dfs_range.hpp: dfs_edge_range")],
 observe="sequence of vertices or edges")

prop("C29", "Benchmark drivers run what was asked and report it truthfully",
 "For every Matrix Market file and valid options, a benchmark program runs each requested version with each requested number of threads, once per trial, on the graph the file describes, from the requested sources or else from reproducible random vertices that have an edge leading to them. The triangle counts, component counts and sizes and ranks it prints are those of that graph, however it was relabeled, cleaned or stored, and verification reports nothing when results are right. Tables have one row per version and number of threads with minimum <= mean <= maximum time, logs one line per run; files rewritten in binary form hold the same graph.",
 ["inputs", "schedules"], "every file and valid combination of options, and interleavings of the counting threads",
 "no test runs the benchmark programs",
 ["bench/tc.cpp", "bench/cc.cpp", "bench/bfs.cpp", "bench/sssp.cpp", "bench/pr.cpp", "bench/bc.cpp"],
 [("programs", "bench/tc.cpp, cc.cpp, bfs.cpp, sssp.cpp, pr.cpp, bc.cpp, SourceVerifier.cpp, ProcessEdgelist.cpp: main"), ("shared functions", "bench/common.hpp"), ("log", "bench/Log.hpp")],
 observe="standard output of the programs; values of the shared functions")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
