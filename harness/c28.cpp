// Depth-first ranges. The two headers declare the same names: one part each.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#if PART == 1
#include "nwgraph/adaptors/new_dfs_range.hpp"
#else
#include "nwgraph/util/util_par.hpp"
#include "nwgraph/adaptors/dfs_range.hpp"
#endif
#include <stack>
#include <deque>
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using D = directedness;
template <class R, class F> void upto(R& r, size_t lim, bool how, F&& f) {
  size_t k = 0;
  if (how) { for (auto&& x : r) { f(x); if (++k > lim) break; } }
  else { auto it = r.begin(); auto e = r.end(); while (!(it == e) && ++k <= lim) { f(*it); ++it; } }
}
template <class A> void traversals(vf::Case& c, A& a) {
  size_t n = a.size(); if (n == 0) return;
  std::set<size_t> seeds{c.rnd(n), c.rnd(n), 0, n - 1}; if (n <= 5) for (size_t v = 0; v < n; ++v) seeds.insert(v); else if (n > 100) seeds = {c.rnd(n)};
  for (size_t s : seeds) {
    auto begin = [&] { c.add(Ev("begin").kv("seed", s)); };
    auto vertices = [&](auto& r) { upto(r, n + 5, c.rnd(2), [&](auto&& v) { c.add(Ev("finish").kv("v", (long)v)); }); c.add(Ev("endv")); };
    c.at("dfs range"); begin();
    if (s || c.rnd(2)) { dfs_range<A> r(a, s); vertices(r); } else { dfs_range r(a); vertices(r); }
#if PART != 1
    if constexpr (requires { typename A::outer_iterator; typename A::inner_iterator; }) {
      auto edges = [&](auto& r) { upto(r, n + 5, c.rnd(2), [&](auto&& e) { std::string x = vf::rec_js(std::remove_cvref_t<decltype(e)>(e)); c.add(Ev("tree").raw("e", x)); }); c.add(Ev("ende")); };
      c.at("dfs edge range"); begin();
      if (s || c.rnd(2)) { if (c.rnd(2)) { dfs_edge_range<A> r(a, s); edges(r); } else { dfs_edge_range<A, std::stack<size_t, std::vector<size_t>>> r(a, s); edges(r); } } else { dfs_edge_range r(a); edges(r); }
    }
#endif
  }
}
template <class A> void drive(const char* name, const std::string& id, auto&& make) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) { A a = make(); c.kv("n", (long)a.size()); vf::raw(c, "rows", vf::rows_js(a)); traversals(c, a); });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k) {
    switch (k % 6) {
      case 0: drive<adjacency<0>>("a0", id, [&] { auto l = make_list<edge_list<D::directed>>(g); return adjacency<0>(l); }); break;
      case 1: drive<adjacency<0, int>>("a1", id, [&] { auto l = make_list<edge_list<D::directed, int>>(g); return adjacency<0, int>(l); }); break;
      case 2: drive<adjacency<1, int>>("u1", id, [&] { auto l = make_list<edge_list<D::undirected, int>>(g); return adjacency<1, int>(l); }); break;
      case 3: drive<vov<0, int>>("vov", id, [&] { auto l = make_list<edge_list<D::directed, int>>(g); return vov<0, int>(l); }); break;
      case 4: drive<adj_list<0, int>>("adjlist", id, [&] { auto l = make_list<edge_list<D::undirected, int>>(g); return adj_list<0, int>(l); }); break;
      case 5: drive<adjacency<0>>("t0", id, [&] { auto l = make_list<edge_list<D::directed>>(g); return adjacency<0>(l); }); break;
    }
  };
  each_graph(Shape{40, 90}, one);
  extreme_graphs(one);
}
