// The library's builders work on any type that models its edge_list_graph
// concept; the concept documentation leaves the traits of vector<tuple> to the user.
#pragma once
#include <algorithm>
#include <string>
#include <tuple>
#include <vector>
#include "nwgraph/graph_concepts.hpp"
namespace nw::graph {
template <class... A> struct graph_traits<std::vector<std::tuple<size_t, size_t, A...>>> { using vertex_id_type = size_t; };
template <class... A> auto tag_invoke(const num_vertices_tag, const std::vector<std::tuple<size_t, size_t, A...>>& b) { size_t n = 0; for (auto& e : b) n = std::max({n, std::get<0>(e) + 1, std::get<1>(e) + 1}); return n; }
template <class... A> auto tag_invoke(const num_edges_tag, const std::vector<std::tuple<size_t, size_t, A...>>& b) { return b.size(); }
template <class... A> size_t tag_invoke(const source_tag, const std::vector<std::tuple<size_t, size_t, A...>>&, const std::tuple<size_t, size_t, A...>& e) { return std::get<0>(e); }
template <class... A> size_t tag_invoke(const target_tag, const std::vector<std::tuple<size_t, size_t, A...>>&, const std::tuple<size_t, size_t, A...>& e) { return std::get<1>(e); }
}
