// Shortest paths.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/algorithms/delta_stepping.hpp"
#include "nwgraph/algorithms/dijkstra.hpp"
#include "nwgraph/experimental/algorithms/delta_stepping.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
// distances are recorded in units of the smallest weight
template <class X> std::string dist_js(const std::vector<X>& d, double unit) {
  std::string s = "[";
  for (size_t i = 0; i < d.size(); ++i) {
    if (i) s += ',';
    auto x = [&] { if constexpr (requires { d[i].load(); }) return d[i].load(); else return d[i]; }(); using T = decltype(x);
    if (x == std::numeric_limits<T>::max()) { s += "-1"; continue; }
    double q = (double)x / unit; long k = std::lround(q);
    s += std::to_string(k >= 0 && k < 1000000000 && std::abs(q - k) < 1e-3 ? k : vf::JUNK);
  }
  return s + "]";
}
struct Results : vf::Distinct { double unit = 1; template <class P> void add(const char* f, const P& p) { put(Ev(f).raw("d", dist_js(p, unit))); } };
template <class T> T val(int w, double unit) { if constexpr (std::is_floating_point_v<T>) return (T)(w * unit); else return (T)w * (T)unit; }
template <class T> std::vector<T> deltas(vf::Case& c, double unit) { std::vector<T> r; for (int k = 0; k < 2; ++k) { static const double m[] = {1, 2, 3, 5, 8, 40, 2.5, 0.5}; double x = m[c.rnd(std::is_floating_point_v<T> ? 8 : 6)]; if constexpr (std::is_floating_point_v<T>) r.push_back((T)(x * unit)); else r.push_back((T)x * (T)unit); } return r; }
// W: weight type, T: distance type, col: tuple index of the weight
template <class T, class W, int col, class A> void sssp(vf::Case& c, const A& g, double unit) {
  size_t n = nw::graph::num_vertices(g); if (!n) return;
  constexpr bool comp = requires { g.to_be_indexed_; };
  std::set<unsigned> roots{c.rnd(n)}; if (n <= 3) for (unsigned v = 0; v < n; ++v) roots.insert(v);
  auto wt = [](auto&& e) -> auto& { return std::get<col>(e); };
  auto wv = [](auto&& e) { return std::get<col>(e); };
  for (unsigned root : roots) {
    Results r; r.unit = unit; size_t t = vf::some_threads(c);
    auto run = [&](const char* f, size_t t, auto&& call) { c.at(f); vf::schedules([&] { r.add(f, vf::threads(t, call)); }); };
    auto del = deltas<T>(c, unit);
#if IN_PART(0)
    run("dijkstra", t, [&] { return dijkstra<T>(g, root, wv); });
    run("m1", t, [&] { return delta_stepping_m1<T>(g, root, del[0], wt); });
    for (auto d : del) run("sequential", t, [&] { return delta_stepping<T>(g, root, d, wt); });
    if constexpr (comp && col == 1 && std::tuple_size_v<typename A::attributes_t> == 1) for (auto d : del) run("parallel", t, [&] { return delta_stepping<T>(g, root, d); });
#endif
#if IN_PART(1)
    if constexpr (comp) for (auto d : del) {
      run("v9", t, [&] { return delta_stepping_v9<T>(g, root, d, wt); });
      run("v10", t, [&] { return delta_stepping_v10<T>(g, root, d, wt); });
      run("v11", t, [&] { return delta_stepping_v11<T>(g, root, d, wt); });
      run("v8 sequential", 1, [&] { return delta_stepping_v8<T>(g, root, d, wt); });
      if constexpr (col == 1 && std::tuple_size_v<typename A::attributes_t> == 1) run("v6 sequential", 1, [&] { return delta_stepping_v6<T>(g, root, d); });
    }
#endif
    Ev e("sssp"); e.kv("root", root).raw("res", r.s + "]"); c.add(e);
  }
}
template <int col, class A> void show(vf::Case& c, A& a, double unit) {
  std::string s = "["; bool f = true;
  for (auto&& r : a) { if (!f) s += ','; f = false; s += "["; bool g = true; for (auto&& x : r) { if (!g) s += ','; g = false; s += "[" + std::to_string((long)std::get<0>(x)) + "," + std::to_string(std::lround(std::get<col>(x) / unit)) + "]"; } s += "]"; }
  vf::raw(c, "rows", s + "]");
}
template <class L> L weighted(const vf::G& g, double unit) {
  L l(g.n); l.open_for_push_back();
  for (auto& x : g.e) { typename L::element e; std::get<0>(e) = x.u; std::get<1>(e) = x.v; [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J + 2>(e) = val<std::tuple_element_t<J + 2, typename L::element>>(J == 0 ? x.w : 1 + (x.w * 7 + (int)J) % 11, unit)), ...); }(std::make_index_sequence<vf::n_attr<L>>{}); l.push_back(e); }
  l.close_for_push_back(); return l;
}
template <class T, int col, class A, class L> void drive(const char* name, const std::string& id, const vf::G& g, bool fl) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    static const double u[] = {0.1, 0.05, 0.01, 0.3, 0.7, 1.0 / 3, 1, 0.25}; double unit = fl ? u[c.rnd(8)] : c.rnd(4) ? 1 : c.rnd(2) ? 1000 : 65537;
    auto l = weighted<L>(g, unit); A a(l); show<col>(c, a, unit);
    sssp<T, void, col>(c, std::as_const(a), unit);
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k) {
    switch (k % 6) {
      case 0: drive<int, 1, adjacency<0, int>, edge_list<D::directed, int>>("int", id, g, false); break;
      case 1: drive<double, 1, adjacency<0, double>, edge_list<D::directed, double>>("double", id, g, true); break;
      case 2: drive<std::uint64_t, 1, adjacency<0, int>, edge_list<D::undirected, int>>("u64", id, g, false); break;
      case 3: drive<int, 2, adjacency<0, int, int>, edge_list<D::directed, int, int>>("second", id, g, false); break;
      case 4: drive<float, 1, adjacency<0, float>, edge_list<D::undirected, float>>("float", id, g, true); break;
      case 5: drive<double, 1, adjacency<1, double>, edge_list<D::directed, double>>("double1", id, g, true); break;
    }
#if IN_PART(0)
    if (g.n < 100 && k % 3 == 0) drive<int, 1, vov<0, int>, edge_list<D::directed, int>>("vov", id, g, false);
    if (g.n < 100 && k % 3 == 1) drive<double, 1, adj_list<0, double>, edge_list<D::undirected, double>>("adjlist", id, g, true);
#endif
  };
  each_graph(Shape{40, 120, true, true, 20}, one);
  large_graphs(1200, 5000, one, 30);
}
