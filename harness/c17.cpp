// Maximal independent sets (what=1) and colouring (what=2).
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/algorithms/maximal_independent_set.hpp"
#include "nwgraph/algorithms/dag_based_mis.hpp"
#include "nwgraph/algorithms/jones_plassmann_coloring.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
// storage: 0 symmetric, 1 upper, 2 lower triangle
template <class A> void sets(vf::Case& c, A& a, int storage) {
  size_t n = num_vertices(a), t = vf::some_threads(c);
  if (storage == 0) { c.at("mis"); std::vector<size_t> s; vf::threads(t, [&] { maximal_independent_set(a, s); }); c.add(Ev("list").kv("f", "maximal_independent_set").kv("set", s)); }
  if constexpr (std::tuple_size_v<typename A::attributes_t> == 0) {
    c.at("dag mis"); std::vector<bool> m(c.rnd(2) ? n : c.rnd(n + 3)); for (size_t i = 0; i < m.size(); ++i) m[i] = c.rnd(2);
    vf::threads(t, [&] { dag_based_mis(a, m); }); c.add(Ev("flags").kv("f", "dag_based_mis").kv("in", m));
  }
}
template <class A> void colours(vf::Case& c, A& a) {
  size_t n = num_vertices(a); std::vector<size_t> col(n); bool junk = c.rnd(2); if (junk) for (auto& x : col) x = c.rnd(5);
  c.at("colouring"); vf::threads(vf::some_threads(c), [&] { jones_plassmann_coloring(a, col); }); c.add(Ev("colours").kv("f", "jones_plassmann_coloring").kv("col", col));
}
template <class A, class F> void drive(const char* name, const std::string& id, const vf::G& g, int storage, F&& f) {
  vf::run_case(std::string(name) + (storage ? storage == 1 ? "U/" : "L/" : "/") + id, [&](vf::Case& c) { A a = f(); vf::raw(c, "rows", vf::rows_js(a)); if (vf::extra("what") == 1) sets(c, a, storage); else colours(c, a); });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g0, long k) {
    G g = simple(g0); int storage = extra("what") == 1 ? (k / 2) % 4 % 3 : 0;
    if (storage) for (auto& x : g.e) if ((x.u > x.v) == (storage == 1)) std::swap(x.u, x.v);
    using U0 = edge_list<D::undirected>; using U1 = edge_list<D::undirected, int>; using D0 = edge_list<D::directed>;
    if (storage) { if (k % 3 && g.n) drive<vov<0>>("vov", id, g, storage, [&] { auto l = make_list<D0>(g); return vov<0>(l); }); else drive<adjacency<0>>("a0", id, g, storage, [&] { auto l = make_list<D0>(g); return adjacency<0>(l); }); return; }
    switch (k % 5) {
      case 0: case 1: drive<adjacency<0>>("a0", id, g, 0, [&] { auto l = make_list<U0>(g); return adjacency<0>(l); }); break;
      case 2: drive<adjacency<0, int>>("a1", id, g, 0, [&] { auto l = make_list<U1>(g); return adjacency<0, int>(l); }); break;
      case 3: drive<adjacency<1>>("a01", id, g, 0, [&] { auto l = make_list<U0>(g); return adjacency<1>(l); }); break;
      case 4: if (g.n < 100 && g.n) drive<vov<0, int>>("vov", id, g, 0, [&] { auto l = make_list<U1>(g); return vov<0, int>(l); }); break;
    }
    if (k % 6 == 2 && g.n && g.n < 100) drive<adj_list<0, int>>("adjlist", id, g, 0, [&] { auto l = make_list<U1>(g); return adj_list<0, int>(l); });
  };
  each_graph(Shape{40, 120, false, false, 9}, one);
  large_graphs(2500, 12000, one);
}
