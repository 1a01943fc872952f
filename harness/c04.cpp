// Clean-up, ordering and renaming passes: histories generated from EdgeOpsMC and random ones.
#include "gr.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using D = directedness;
template <class L> Ev pass(const char* op, L& l) { Ev e("pass"); e.kv("op", op).raw("edges", vf::list_js(l)).kv("size", l.size()).kv("nv", l.num_vertices()); return e; }
const char* side[] = {"predecessor", "successor"};
const std::string dirs[] = {"ascending", "descending"};
std::vector<unsigned> rperm(vf::Case& c, size_t n) { std::vector<unsigned> p(n); std::iota(p.begin(), p.end(), 0u); if (c.rnd(3)) std::shuffle(p.begin(), p.end(), c.rng); else if (n > 1) std::rotate(p.begin(), p.begin() + 1, p.end()); return p; }

template <int idx, class L> void sorts(vf::Case& c, L& l, int op, int pol) {
  auto go = [&](auto&& p) {
    switch (op) {
      case 0: c.at("sort_by"); sort_by<idx>(l, p); c.add(pass("sort", l).kv("idx", idx)); break;
      case 1: c.at("stable_sort_by"); stable_sort_by<idx>(l, p); c.add(pass("stable", l).kv("idx", idx)); break;
      case 2: c.at("lexical_sort_by"); lexical_sort_by<idx>(l, p); c.add(pass("lex", l).kv("idx", idx)); break;
      case 3: c.at("lexical_stable_sort_by"); lexical_stable_sort_by<idx>(l, p); c.add(pass("lexstable", l).kv("idx", idx)); break;
    }
  };
  if (pol == 0) go(std::execution::par_unseq); else if (pol == 1) go(std::execution::seq); else {
    switch (op) { case 0: sort_by<idx>(l); c.add(pass("sort", l).kv("idx", idx)); break; case 1: stable_sort_by<idx>(l); c.add(pass("stable", l).kv("idx", idx)); break;
      case 2: lexical_sort_by<idx>(l); c.add(pass("lex", l).kv("idx", idx)); break; case 3: lexical_stable_sort_by<idx>(l); c.add(pass("lexstable", l).kv("idx", idx)); break; } }
}
template <int idx, class L> void tri(vf::Case& c, L& l, int s) {
  c.at("swap_to_triangular");
  const std::string name = side[s];
  switch (c.rnd(4)) {
    case 2: swap_to_triangular<idx>(l, name); break;
    case 0: swap_to_triangular<idx>(l, s ? succession::successor : succession::predecessor); break;
    case 1: if (s) swap_to_triangular<idx, L, succession::successor>(l, std::execution::seq); else swap_to_triangular<idx, L, succession::predecessor>(l, std::execution::par); break;
    default: if (s) swap_to_triangular<idx, L, succession::successor>(l); else swap_to_triangular<idx, L, succession::predecessor>(l);
  }
  c.add(pass("tri", l).kv("idx", idx).kv("side", side[s]));
}
template <int idx, class L> void relabels(vf::Case& c, L& l, int op, bool bi) {
  int s = c.rnd(2);
  if (op == 15) {
    c.at("degrees"); auto d = degrees<idx>(l); c.add(pass("degrees", l).kv("idx", idx).kv("deg", d));
    if constexpr (!std::is_base_of_v<bipartite_graph_base, L>) {
      c.at("perm_by_degree"); auto p = c.rnd(2) ? perm_by_degree<idx>(l, dirs[s]) : perm_by_degree<idx>(l, d, dirs[s]); c.add(pass("perm", l).kv("idx", idx).kv("side", dirs[s]).kv("perm", p));
    } else { c.at("perm_by_degree"); auto p = perm_by_degree<idx>(l, d, dirs[s]); c.add(pass("perm", l).kv("idx", idx).kv("side", dirs[s]).kv("perm", p)); }
  } else if (op == 14) {
    c.at("relabel");
    if constexpr (std::is_base_of_v<bipartite_graph_base, L>) { auto p = rperm(c, l.num_vertices()[idx]); auto m = relabel<idx>(l, p); c.add(pass("relabelside", l).kv("idx", idx).kv("perm", p).kv("map", m)); }
    else { auto p = rperm(c, l.num_vertices()[0]); auto m = relabel(l, p); c.add(pass("relabel", l).kv("perm", p).kv("map", m)); }
  } else if constexpr (!std::is_base_of_v<bipartite_graph_base, L>) {
    c.at("relabel_by_degree");
    if (op == 16) { auto m = relabel_by_degree<idx>(l, dirs[s]); c.add(pass("bydegree", l).kv("idx", idx).kv("side", dirs[s]).kv("map", m)); }
    else if (op == 17) { auto d = degrees<idx>(l); std::vector<int> di(d.begin(), d.end()); auto m = relabel_by_degree<idx>(l, dirs[s], di); c.add(pass("bydegree", l).kv("idx", idx).kv("side", dirs[s]).kv("map", m)); }
    else if (op == 18) { relabel_by_degree(l, dirs[s]); c.add(pass("bydegree", l).kv("idx", 0).kv("side", dirs[s])); }
    else { auto d = degrees<0>(l); relabel_by_degree(l, dirs[s], d); c.add(pass("bydegree", l).kv("idx", 0).kv("side", dirs[s])); }
  }
}
template <class L> void list_history(const char* tag, const std::string& id, const vf::G& g, const std::vector<int>& ops, bool directed) {
  constexpr bool bi = std::is_base_of_v<bipartite_graph_base, L>;
  vf::run_case(std::string(tag) + "/" + id, [&](vf::Case& c) {
    L l = vf::make_list<L>(g);
    c.kv("dir", directed).kv("bi", bi).kv("nv", l.num_vertices()); raw(c, "e", vf::list_js(l));
    for (int op : ops) {
      bool one = op & 1;
      if (op < 8) { if (one) sorts<1>(c, l, op / 2, c.rnd(3)); else sorts<0>(c, l, op / 2, c.rnd(3)); }
      else if (op < 12) { if (op >= 10) tri<1>(c, l, op & 1); else tri<0>(c, l, op & 1); }
      else if (op == 12) { c.at("uniq"); if (c.rnd(2)) uniq(l); else uniq(l, std::execution::seq); c.add(pass("uniq", l)); }
      else if (op == 13) { c.at("remove_self_loops"); remove_self_loops(l); c.add(pass("noloops", l)); }
      else { if (c.rnd(2)) relabels<1>(c, l, op, bi); else relabels<0>(c, l, op, bi); }
    }
    if (c.ev.empty() && l.num_vertices()[0] < 100000) c.add(pass("degrees", l).kv("idx", 0).kv("deg", degrees<0>(l)));
  });
}
// adjacency: weights are unique so that entries can be told apart
template <class A, class L> void adj_history(const char* tag, const std::string& id, const vf::G& g0, const std::vector<int>& ops, bool directed) {
  constexpr bool bi = std::is_base_of_v<bipartite_graph_base, L>;
  vf::run_case(std::string(tag) + "/" + id, [&](vf::Case& c) {
    vf::G g = g0; for (size_t i = 0; i < g.e.size(); ++i) g.e[i].w = i;
    L l = vf::make_list<L>(g); A a(l, c.rnd(2));
    c.kv("dir", directed); raw(c, "rows", vf::rows_js(a));
    auto note = [&](const char* op) { Ev e("rows"); e.kv("op", op).raw("obs", vf::observe_rows(a)); return e; };
    c.add(note("start"));
    for (int op : ops) {
      int s = c.rnd(2);
      if (op < 4) { c.at("sort_to_be_indexed"); if (s) a.sort_to_be_indexed(); else a.sort_to_be_indexed(std::execution::seq); c.add(note("sort")); }
      else if (op < 7) { c.at("permute_by_degree"); auto m = s ? a.permute_by_degree(dirs[op & 1]) : a.permute_by_degree(dirs[op & 1], std::execution::seq); c.add(note("permute").kv("side", dirs[op & 1]).kv("map", m)); }
      else if (op == 8 || op == 9) { c.at("triangularize"); if (op & 1) a.template triangularize<succession::successor>(); else a.template triangularize<succession::predecessor>(); c.add(note("tri").kv("side", side[op & 1])); }
      else if (op == 10 || op == 11) { c.at("triangularize_"); if (op & 1) a.triangularize_(std::less_equal<unsigned>{}); else a.triangularize_(std::greater_equal<unsigned>{}); c.add(note("tricmp").kv("side", op & 1 ? "leq" : "geq")); }
      else if (op == 7 || op == 12) { size_t n = bi ? (size_t)a.num_vertices()[1] : a.size(); c.at("relabel_to_be_indexed"); auto m = rperm(c, n); a.relabel_to_be_indexed(m); c.add(note("relabel").kv("map", m)); }
      else if (op == 13) { if constexpr (!bi) if (directed) { bool uniqw = true; c.at("sort_by_degree"); if (s) a.sort_by_degree(); else a.sort_by_degree(dirs[0]); c.add(note("bydegree").kv("side", dirs[s])); } }
      else { c.at("degrees"); const A& ca = a; c.add(note("degrees").kv("deg", ca.degrees(std::execution::par_unseq))); c.add(note("degrees").kv("deg", ca.degrees())); if constexpr (!bi) c.add(note("degrees").kv("deg", degrees(ca))); }
    }
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, const std::vector<int>& ops, long k, bool all) {
#if IN_PART(0)
    if (all || k % 5 == 0) list_history<edge_list<D::directed, int>>("d1", id, g, ops, true);
#endif
#if IN_PART(3)
    if (all || k % 5 == 1) list_history<edge_list<D::undirected, int>>("u1", id, g, ops, false);
#endif
#if IN_PART(4)
    if (all || k % 5 == 2) list_history<edge_list<D::directed>>("d0", id, g, ops, true);
#endif
#if IN_PART(1)
    if (all || k % 5 == 3) list_history<edge_list<D::directed, double, int>>("d2", id, g, ops, true);
#endif
#if IN_PART(5)
    if (all || k % 5 == 4) list_history<bi_edge_list<D::directed, int>>("b1", id, g, ops, true);
#endif
#if IN_PART(2)
    if (all || k % 3 == 0) adj_history<adjacency<0, int>, edge_list<D::directed, int>>("ad", id, g, ops, true);
    if (all || k % 3 == 1) adj_history<adjacency<1, int, double>, edge_list<D::undirected, int, double>>("au", id, g, ops, false);
    if (all || k % 3 == 2) adj_history<biadjacency<0, int>, bi_edge_list<D::directed, int>>("ab", id, g, ops, true);
#endif
  };
  auto wide_one = [&](const std::string& id, const G& g, const std::vector<int>& ops) {
#if IN_PART(0)
    list_history<edge_list<D::directed, int>>("d1", id, g, ops, true);
#endif
#if IN_PART(3)
    list_history<edge_list<D::undirected, int>>("u1", id, g, ops, false);
#endif
#if IN_PART(5)
    list_history<bi_edge_list<D::directed, int>>("b1", id, g, ops, true);
#endif
  };
  int lo = opt.ex["ops"] == "rename" ? 14 : 0;
  auto rops = [&](Rng& r, int n) { std::vector<int> o; for (int j = 0; j < n; ++j) o.push_back(lo ? (rn(r, 3) ? 14 + rn(r, 6) : rn(r, 14)) : rn(r, 16)); return o; };
  Rng r(opt.seed + 5);
  each_graph(Shape{.maxn = 14, .maxm = 40, .bign = 300, .bigm = 600}, [&](const std::string& id, const G& g, long k) {
    bool all = id[0] != 'g';
    one(id, g, g.ops.empty() ? rops(r, 8) : g.ops, k, all);
    if (!lo && all && g.n < 20 && k % 3 == 0) {   // ids far apart: up to the largest that fit
      static const unsigned far[] = {1u << 16, 1u << 20, 70001, 1u << 24, 1u << 26, 256};
      G h = g; unsigned t = far[rn(r, 6)]; for (auto& e : h.e) { e.u *= t; e.v *= t; if (rn(r, 3) == 0) e.u += rn(r, 2); } h.n = h.n * t + 1; auto ops = rops(r, 8); std::erase_if(ops, [](int o) { return o >= 14; });
      if (ops.empty()) ops = {12, 6};
      wide_one("w" + id, h, ops);
    }
  });
  for (long j = 0; j < std::atol(opt.ex["big"].c_str()); ++j) {   // beyond the sequential cutoffs; distinct records
    G g; g.n = (j & 1 ? 300 : 40) + rn(r, 30); unsigned m = 1200 + rn(r, 300); g.cls = "big"; for (unsigned i = 0; i < m; ++i) g.e.push_back({rn(r, g.n), rn(r, g.n), (int)i});
    std::string id = "b" + std::to_string(j); using O = std::vector<int>; int by = 16 + rn(r, 4);
#if IN_PART(0)
    list_history<edge_list<D::directed, int>>("d1", id, g, lo ? O{15, by, 14} : j & 1 ? O{13, 4, 12, 7, 15} : O{3, 8, 6, 12, 13}, true);
#endif
#if IN_PART(3)
    list_history<edge_list<D::undirected, int>>("u1", id, g, lo ? O{by, 15} : j & 1 ? O{1, 10, 13} : O{9, 5, 12}, false);
#endif
#if IN_PART(5)
    if (lo) list_history<bi_edge_list<D::directed, int>>("b1", id, g, O{14, 15}, true);
#endif
#if IN_PART(2)
    adj_history<adjacency<0, int>, edge_list<D::directed, int>>("ad", id, g, lo ? O{4 + (int)rn(r, 3), 7} : j & 1 ? O{13, 8} : O{4, 7, 10}, true);
#endif
  }
}
