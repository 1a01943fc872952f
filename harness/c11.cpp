// Traversal ranges.
#include "traits_std.hpp"
#include "gr.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/adaptors/bfs_range.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
#include "nwgraph/adaptors/filtered_bfs_range.hpp"
#include "nwgraph/adaptors/dag_range.hpp"
#include "nwgraph/adaptors/reverse.hpp"
#include "nwgraph/adaptors/random_range.hpp"
#include "nwgraph/adaptors/back_edge_range.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using D = directedness;
struct path_edge { unsigned predecessor; };
template <class T> std::string rj(T&& t) { return vf::rec_js(std::remove_cvref_t<T>(t)); }
// enumerate until the end, but never more than a sane number of elements
template <class R, class F> void upto(R& r, size_t lim, F&& f) { size_t k = 0; auto it = r.begin(); auto e = r.end(); for (; it != e && k < lim; ++it, ++k) f(it); }
template <bool attr, class A> void traversals(vf::Case& c, A& a, long var) {
  size_t n = a.size(); if (n == 0) return;
  size_t lim = 4 * n + 10;
  std::set<size_t> seeds{c.rnd(n), c.rnd(n)}; if (n <= 4) for (size_t v = 0; v < n; ++v) seeds.insert(v);
  for (size_t s : seeds) {
    c.at("bfs range"); { topdown_bfs_range r(a, s); std::string q = "["; bool f = true; upto(r, lim, [&](auto& it) { if (!f) q += ','; f = false; q += std::to_string(*it); }); Ev e("bfs"); e.kv("seed", s).raw("seq", q + "]"); c.add(e); }
    if constexpr (requires { typename A::inner_iterator; }) {
    c.at("bfs edge range"); { bfs_edge_range r(a, s); std::string q = "["; bool f = true; upto(r, lim, [&](auto& it) { if (!f) q += ','; f = false; q += rj(*it); }); Ev e("tree"); e.kv("seed", s).raw("seq", q + "]"); c.add(e); }
    }
    c.at("bfs edge range 3"); { bfs_edge_range3 r(a, s); std::string q = "["; bool f = true; upto(r, lim, [&](auto& it) { if (!f) q += ','; f = false; q += rj(*it); }); Ev e("tree3"); e.kv("seed", s).raw("seq", q + "]"); c.add(e); }
    if constexpr (attr && requires { typename A::inner_iterator; }) {
      c.at("filtered bfs");
      std::set<size_t> targets{c.rnd(n), c.rnd(n)}; if (n <= 4) for (size_t v = 0; v < n; ++v) targets.insert(v);
      for (size_t t : targets) {
        long p = c.rnd(3), q = c.rnd(3), m = c.rnd(3) ? 3 + c.rnd(4) : 1000003;
        auto ban = [=](auto v, auto it) { return ((long)v * p + (long)std::get<0>(*it) * q + (long)std::get<1>(*it)) % m == 0; };
        filtered_bfs::filtered_bfs_edge_range<A, std::queue<vertex_id_t<A>>, decltype(ban)> r(a, s, t, ban);
        std::string z = "["; bool f = true; upto(r, lim, [&](auto& it) { if (!f) z += ','; f = false; z += rj(std::tuple_cat(std::make_tuple(it.get_index()), *it)); });
        Ev e("filtered"); e.kv("seed", s).kv("target", t).kv("a", p).kv("b", q).kv("m", m).raw("seq", z + "]").kv("found", r.found()); c.add(e);
      }
    }
  }
}
template <class A> void walks(vf::Case& c, A& a, long var) {
  size_t n = a.size(); for (auto&& r : a) if (r.begin() == r.end()) return; if (!n) return;
  c.at("random walk");
  size_t len = c.rnd(40), first = c.rnd(n), seed = c.rnd(1000); std::vector<long> w[2];
  for (auto& x : w) { random_range r(a, len, first, seed); upto(r, 100, [&](auto& it) { x.push_back(*it); }); Ev e("walk"); e.kv("len", len).kv("first", first).kv("seq", x); c.add(e); }
  Ev e("same"); e.kv("x", w[0]).kv("y", w[1]); c.add(e);
}
template <class A> void backs(vf::Case& c, A& a) {
  for (auto&& r : a) { std::set<long> s; for (auto&& x : r) if (!s.insert(std::get<0>(x)).second) return; }
  { size_t u = 0; for (auto&& r : a) { for (auto&& x : r) if (std::get<0>(x) == u) return; ++u; } }
  auto look = [&](auto& b) {
    std::string rows = "["; bool f = true; for (auto o = b.begin(); o != b.end(); ++o) { if (!f) rows += ','; f = false; rows += "["; bool g = true; auto row = *o; for (auto it = row.begin(); it != row.end(); ++it) { if (!g) rows += ','; g = false; rows += rj(*it); } rows += "]"; }
    std::string pairs = "["; f = true; auto G = b.begin();
    for (size_t u = 0; u < a.size(); ++u) { auto row = G[u]; for (auto it = row.begin(); it != row.end(); ++it) { if (!f) pairs += ','; f = false; long v = std::get<0>(*it); pairs += rj(std::make_tuple((long)u, v, (long)std::get<0>(b.get_back_edge(u, it)))); } }
    Ev e("back"); e.raw("rows", rows + "]").raw("pairs", pairs + "]"); c.add(e);
  };
  { c.at("back edges"); back_edge_range b(a); look(b); }
  { c.at("back edges as needed"); back_edge_range b(a, true); std::vector<std::pair<unsigned, unsigned>> q;
    { unsigned u = 0; for (auto&& r : a) { for (auto&& x : r) { q.push_back({u, std::get<0>(x)}); if (c.rnd(4) == 0) q.push_back(q.back()); } ++u; } }
    std::shuffle(q.begin(), q.end(), c.rng); std::string s = "["; for (auto& [u, v] : q) { if (s.size() > 1) s += ','; s += rj(std::make_tuple((long)u, (long)v, (long)std::get<0>(b.get_back_edge(u, v)))); }
    Ev e("back1"); e.raw("pairs", s + "]"); c.add(e); look(b); }
}
void dags(vf::Case& c, const vf::G& g) {
  size_t n = g.n; if (!n) return; c.at("dag range");
  std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; std::shuffle(p.begin(), p.end(), c.rng);
  std::vector<std::vector<size_t>> pred(n), succ(n); std::vector<std::vector<long>> e;
  for (auto& x : g.e) if (x.u != x.v) { size_t u = p[std::min(x.u, x.v)], v = p[std::max(x.u, x.v)]; succ[u].push_back(v); pred[v].push_back(u); e.push_back({(long)u, (long)v}); }
  edge_list<D::directed> l(n); adjacency<0> a(n); dag_range<adjacency<0>> r(a, pred, succ);
  std::string q = "["; bool f = true; upto(r, 4 * e.size() + 10, [&](auto& it) { auto [u, v, y] = *it; if (!f) q += ','; f = false; q += "[" + std::to_string(u) + "," + std::to_string(v) + "," + (y == yes ? "true" : "false") + "]"; });
  Ev ev("dag"); ev.kv("e", e).raw("seq", q + "]"); c.add(ev);
}
void reverses(vf::Case& c, size_t n) {
  if (!n) return; c.at("reverse path");
  std::vector<path_edge> p(n); std::vector<long> pl; for (size_t i = 0; i < n; ++i) p[i].predecessor = i ? c.rnd(i) : 0;   // a tree rooted at 0
  for (auto& x : p) pl.push_back(x.predecessor);
  unsigned start = c.rnd(n), stop = start; for (int k = c.rnd(5) + 1; k && stop; --k) stop = p[stop].predecessor;
  if (start == stop) return;
  reverse_path<path_edge, unsigned> r(p, start, stop); std::vector<long> q; upto(r, n + 5, [&](auto& it) { q.push_back(std::get<0>(*it)); });
  Ev e("reverse"); e.kv("pred", pl).kv("start", start).kv("stop", stop).kv("seq", q); c.add(e);
}
template <bool attr, class A> void drive(const char* name, const std::string& id, const vf::G& g, long var, auto&& make) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    A a = make(); c.kv("n", (long)a.size()); vf::raw(c, "rows", vf::rows_js(a));
    traversals<attr>(c, a, var); 
    if constexpr (requires { typename A::outer_iterator; typename A::inner_iterator; (*a.begin()).begin() + 1; }) { walks(c, a, var); }
    if constexpr (requires { typename A::inner_iterator; (*a.begin()).begin() + 1; }) backs(c, a);
    dags(c, g); reverses(c, g.n);
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  each_graph(Shape{.maxn = 40, .maxm = 90, .bign = 400, .bigm = 1200}, [&](const std::string& id, const G& g, long k) {
#if IN_PART(0)
    if (k % 3 == 0) drive<false, adjacency<0>>("a0", id, g, k, [&] { auto l = make_list<edge_list<D::directed>>(g); return adjacency<0>(l); });
    if (k % 3 == 1) drive<true, adjacency<0, int>>("a1", id, g, k, [&] { auto l = make_list<edge_list<D::directed, int>>(g); return adjacency<0, int>(l); });
    if (k % 3 == 2) drive<true, adjacency<1, int>>("u1", id, g, k, [&] { auto l = make_list<edge_list<D::undirected, int>>(g); return adjacency<1, int>(l); });
#endif
#if IN_PART(1)
    if (k % 2) drive<true, vov<0, int>>("vov", id, g, k, [&] { auto l = make_list<edge_list<D::directed, int>>(g); return vov<0, int>(l); });
    else drive<true, adj_list<0, int>>("adjlist", id, g, k, [&] { auto l = make_list<edge_list<D::undirected, int>>(g); return adj_list<0, int>(l); });
#endif
  });
}
