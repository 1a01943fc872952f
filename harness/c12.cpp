// Breadth-first search.
#include "traits_std.hpp"
#include "alg.hpp"
#include <forward_list>
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/experimental/algorithms/bfs.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using P = std::vector<unsigned>;
struct Results : vf::Distinct { void add(const char* f, const P& p) { put(Ev(f).kv("p", p)); } };
template <class A, class B> void compressed(vf::Case& c, const A& g, B& gx, bool sym, long var) {
  size_t n = g.size(); if (!n) return;
  std::set<unsigned> roots{c.rnd(n)}; if (n <= 4) for (unsigned v = 0; v < n; ++v) roots.insert(v); else if (n < 100) roots.insert(c.rnd(n));
  for (unsigned root : roots) {
    Results r; size_t t = vf::some_threads(c);
    auto run = [&](const char* f, auto&& call) { c.at(f); vf::schedules([&] { r.add(f, vf::threads(t, call)); }); };
    auto bins = [&] { return 1 << c.rnd(7); };
    auto par = [&] { static const int v[] = {1, 2, 3, 15, 18, 1000}; return v[c.rnd(6)]; };
#if IN_PART(0)
    run("bfs", [&] { return bfs(g, root); });
    for (int k = 0; k < 3; ++k) { int b = bins(), x = par(), y = par(); run("bfs do", [&] { return bfs(g, gx, root, k ? b : 1 + c.rnd(40), x, y); }); }
    run("bfs do default", [&] { return bfs(g, gx, root); });
    run("bfs_v6", [&] { return bfs_v6(g, root); });
    run("bfs_v7", [&] { return bfs_v7(g, root); });
    run("bfs_v8", [&] { return bfs_v8(g, root); });
    run("bfs_v9", [&] { return bfs_v9(g, root); });
#endif
#if IN_PART(1)
    if constexpr (std::tuple_size_v<typename A::attributes_t> == 0) { run("bfs_top_down", [&] { return bfs_top_down(g, root); }); run("bfs_top_down_bitmap", [&] { return bfs_top_down_bitmap(g, root); }); }
    run("bfs_bottom_up", [&] { return bfs_bottom_up(g, gx, root); });
    for (int k = 0; k < 3; ++k) { int x = par(), y = par(), b = 1 << c.rnd(7); run("bfs_v1", [&] { return bfs_v1(g, gx, root, b, x, y); }); run("bfs_v2", [&] { return bfs_v2(g, gx, root, b, x, y); }); }
    run("bfs_v1 default", [&] { return bfs_v1(g, gx, root); }); run("bfs_v2 default", [&] { return bfs_v2(g, gx, root); });
#endif
    Ev e("bfs"); e.kv("root", root).raw("res", r.s + "]"); c.add(e);
#if IN_PART(0)
    // the verifier accepts exactly the valid parent arrays
    c.at("verifier");
    P good = bfs(g, root);
    for (int k = 0; k < 5; ++k) {
      P p = good; if (k) for (int z = 1 + c.rnd(2); z--;) { unsigned v = c.rnd(n); p[v] = c.rnd(4) == 0 ? std::numeric_limits<unsigned>::max() : (unsigned)c.rnd(n); }
      bool ok = [&] { vf::Quiet quiet; return BFSVerifier(g, gx, root, p); }();
      c.add(Ev("verify").kv("root", root).kv("p", p).kv("ok", ok));
    }
#endif
  }
}
template <class A> void plain(vf::Case& c, const A& g) {
  size_t n = nw::graph::num_vertices(g); if (!n) return;
  unsigned root = c.rnd(n); Results r; c.at("bfs"); r.add("bfs", [&] { auto p = bfs(g, root); P q; for (auto x : p) q.push_back(x == std::numeric_limits<std::remove_cvref_t<decltype(x)>>::max() ? std::numeric_limits<unsigned>::max() : (unsigned)x); return q; }());
  c.add(Ev("bfs").kv("root", root).raw("res", r.s + "]"));
}
template <class F> void drive(const char* name, const std::string& id, F&& f) { vf::run_case(std::string(name) + "/" + id, f); }
template <class A> void show(vf::Case& c, A& a) { vf::raw(c, "rows", vf::rows_js(a)); }
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k) {
    if (k % 3 == 0) drive("a0", id, [&](Case& c) { auto l = make_list<edge_list<D::directed>>(g); adjacency<0> a(l); auto l2 = make_list<edge_list<D::directed>>(g); adjacency<1> b(l2); show(c, a); compressed(c, a, b, false, k); });
    if (k % 3 == 1) drive("u0", id, [&](Case& c) { auto l = make_list<edge_list<D::undirected>>(g); adjacency<0> a(l); show(c, a); compressed(c, a, a, true, k); });
    if (k % 3 == 2) drive("a1", id, [&](Case& c) { auto l = make_list<edge_list<D::directed, int>>(g); adjacency<0, int> a(l); auto l2 = make_list<edge_list<D::directed, int>>(g); adjacency<1, int> b(l2); show(c, a); compressed(c, a, b, false, k); });
#if IN_PART(1)
    if (g.n < 100 && k % 4 == 0) drive("vov", id, [&](Case& c) { auto l = make_list<edge_list<D::directed, int>>(g); vov<0, int> a(l); show(c, a); plain(c, a); });
    if (g.n < 100 && k % 4 == 1) drive("adjlist", id, [&](Case& c) { auto l = make_list<edge_list<D::undirected, int>>(g); adj_list<0, int> a(l); show(c, a); plain(c, a); });
    if (g.n < 100 && k % 4 == 2) drive("vv", id, [&](Case& c) { std::vector<std::vector<int>> a(g.n); for (auto& x : g.e) a[x.u].push_back(x.v); show(c, a); plain(c, a); });
    if (g.n < 100 && k % 4 == 3) drive("vl", id, [&](Case& c) { std::vector<std::forward_list<std::tuple<int, double>>> a(g.n); for (auto& x : g.e) a[x.u].push_front({(int)x.v, 1.0}); show(c, a); plain(c, a); });
#endif
  };
  each_graph(Shape{40, 120}, one);
  large_graphs(1500, 6000, one);
}
