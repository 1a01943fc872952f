// Spanning trees.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/algorithms/kruskal.hpp"
#include "nwgraph/algorithms/prim.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
struct Results { std::string s = "["; void add(const Ev& e) { if (s.size() > 1) s += ','; s += e.str(); } };
template <class L> L weighted(const vf::G& g, double unit, bool minus) {
  L l(g.n); l.open_for_push_back();
  for (auto& x : g.e) { typename L::element e; std::get<0>(e) = x.u; std::get<1>(e) = x.v; [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J + 2>(e) = (std::tuple_element_t<J + 2, typename L::element>)((minus ? -x.w + 4 : x.w) * unit + (J ? 3 : 0))), ...); }(std::make_index_sequence<vf::n_attr<L>>{}); l.push_back(e); }
  l.close_for_push_back(); return l;
}
template <class L> std::string show(const L& l, double unit) {
  std::string s = "[";
  for (auto it = l.begin(); it != l.end(); ++it) { auto&& x = *it; double q = (double)std::get<2>(x) / unit; long k = std::lround(q); if (s.size() > 1) s += ','; s += "[" + std::to_string((long)std::get<0>(x)) + "," + std::to_string((long)std::get<1>(x)) + "," + std::to_string(std::abs(k) < 1000000000 && std::abs(q - k) < 1e-3 ? k : vf::JUNK) + "]"; }
  return s + "]";
}
template <class L> void kruskals(vf::Case& c, const L& l, double unit) {
  Results r;
  auto run = [&](const char* f, bool max, auto&& call) { c.at(f); L e = l; L t = call(e); Ev v(f); v.kv("n", num_vertices(t)).kv("max", max).raw("t", show(t, unit)).raw("after", show(e, unit)); r.add(v); };
  run("kruskal", false, [](L& e) { return kruskal(e); });
  run("kruskal less", false, [](L& e) { return kruskal(e, [](auto a, auto b) { return std::get<2>(a) < std::get<2>(b); }); });
  run("kruskal greater", true, [](L& e) { return kruskal(e, [](auto a, auto b) { return std::get<2>(a) > std::get<2>(b); }); });
  c.add(Ev("kruskal").raw("res", r.s + "]"));
}
template <class Dist, class A> void prims(vf::Case& c, const A& a) {
  size_t n = num_vertices(a); if (!n) return;
  std::set<unsigned> roots{c.rnd(n), c.rnd(n)}; if (n <= 4) for (unsigned v = 0; v < n; ++v) roots.insert(v);
  Results r;
  for (unsigned root : roots) { c.at("prim"); auto p = prim<A, Dist>(a, root, [](auto&& e) { return std::get<1>(e); }); Ev v("prim"); v.kv("root", root).kv("pred", p); r.add(v); }
  c.add(Ev("prim").raw("res", r.s + "]"));
}
template <class L, class A> void drive(const char* name, const std::string& id, const vf::G& g, bool fl) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    static const double u[] = {0.1, 0.05, 0.01, 0.3, 0.7, 1.0 / 3, 1, 0.25}; double unit = fl ? u[c.rnd(8)] : c.rnd(4) ? 1 : c.rnd(2) ? 1000 : 1000003; bool minus = c.rnd(4) == 0;
    auto l = weighted<L>(g, unit, minus);
    c.kv("n", (long)g.n); vf::raw(c, "e", show(l, unit));
    kruskals(c, l, unit);
    if constexpr (!std::is_void_v<A>) { if (g.n) { using W = std::tuple_element_t<0, typename L::attributes_t>; A a(l); prims<W>(c, a); } }
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k) {
    switch (k % 5) {
#if IN_PART(0)
      case 0: drive<edge_list<D::undirected, int>, adjacency<0, int>>("int", id, g, false); break;
      case 1: drive<edge_list<D::undirected, double>, adjacency<0, double>>("double", id, g, true); break;
#endif
#if IN_PART(1)
      case 2: drive<edge_list<D::undirected, int, int>, adjacency<0, int, int>>("two", id, g, false); break;
      case 3: drive<edge_list<D::directed, float>, void>("directed", id, g, true); break;
      case 4: drive<edge_list<D::undirected, long, double>, vov<0, long, double>>("long", id, g, false); break;
#endif
      default: break;
    }
  };
  each_graph(Shape{30, 120, true, true, 6}, one);
  large_graphs(500, 2000, one, 30);
}
