// Building the library's graphs from generated inputs and observing them.
#pragma once
#include "nwgraph/edge_list.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/build.hpp"
#include "vf.hpp"

namespace vf {
using nw::graph::directedness;
template <class T, size_t... J> std::string tup_js(const T& t, std::index_sequence<J...>) { std::string s = "["; ((s += (J ? "," : ""), js(s, std::get<J>(t))), ...); return s + "]"; }
// a record (tuple of values or references) or a plain neighbor id, as a JSON array
template <class R> std::string rec_js(const R& r) {
  if constexpr (requires { std::tuple_size<R>::value; }) return tup_js(r, std::make_index_sequence<std::tuple_size_v<R>>{});
  else { std::string s = "["; js(s, r); return s + "]"; }
}
template <class It> std::string seq_js(It b, It e) { std::string s = "["; bool f = true; for (; b != e; ++b) { if (!f) s += ','; f = false; auto&& r = *b; s += rec_js(std::remove_cvref_t<decltype(r)>(r)); } return s + "]"; }
template <class R> std::string range_js(R&& r) { std::string s = "["; bool f = true; for (auto&& x : r) { if (!f) s += ','; f = false; s += rec_js(std::remove_cvref_t<decltype(x)>(x)); } return s + "]"; }
template <class A> std::string rows_js(A&& a) { std::string s = "["; bool f = true; for (auto&& r : a) { if (!f) s += ','; f = false; s += range_js(r); } return s + "]"; }

// attribute values derived from the weight of the generated edge, different per column
template <class T> T attr_of(int w, int j) { if (j == 0) return (T)w; if (j == 1) return (T)(1000 - 3 * w); return (T)(7 * w + j); }
template <class L> constexpr size_t n_attr = std::tuple_size_v<typename L::attributes_t>;
template <class L> typename L::element elem_of(const Edge& x) {
  typename L::element e; std::get<0>(e) = x.u; std::get<1>(e) = x.v;
  [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J + 2>(e) = attr_of<std::tuple_element_t<J + 2, typename L::element>>(x.w, J)), ...); }(std::make_index_sequence<n_attr<L>>{});
  return e;
}
template <class L> L make_list(const G& g) {
  L l = [&] { if constexpr (std::is_base_of_v<nw::graph::bipartite_graph_base, L>) return L(g.n, g.n); else return L(g.n); }();
  l.open_for_push_back();
  for (auto& x : g.e) l.push_back(elem_of<L>(x));
  l.close_for_push_back();
  return l;
}
template <class L> std::string edges_js(const G& g) { std::string s = "["; for (size_t i = 0; i < g.e.size(); ++i) { if (i) s += ','; s += rec_js(elem_of<L>(g.e[i])); } return s + "]"; }
template <class L> std::string list_js(const L& l) { return seq_js(l.begin(), l.end()); }
template <class C> void raw(C& c, const char* k, const std::string& v) { c.head += ','; js(c.head, k); c.head += ':'; c.head += v; }

// With very many vertices only the rows that hold entries are written, each with its vertex.
inline bool sparse_size(size_t n) { return n > 20000; }
template <class A> std::string some_rows_js(A&& a) { std::string s = "["; size_t u = 0; for (auto&& r : a) { auto x = range_js(r); if (x != "[]") { if (s.size() > 1) s += ','; s += "[" + std::to_string(u) + "," + x + "]"; } ++u; } return s + "]"; }
template <class F> std::string some_js(size_t n, F&& f) { std::string s = "["; for (size_t u = 0; u < n; ++u) if (long x = f(u)) { if (s.size() > 1) s += ','; s += "[" + std::to_string(u) + "," + std::to_string(x) + "]"; } return s + "]"; }
template <class A> void put_rows(Ev& o, A& a) {
  const A& ca = a;
  if (sparse_size(a.size())) o.raw("sp", some_rows_js(a)).raw("csp", some_rows_js(ca)); else o.raw("rows", rows_js(a)).raw("crows", rows_js(ca));
}
template <class A> std::string observe_wide(A& a) {
  const A& ca = a; size_t n = ca.size(); Ev o("obs"); put_rows(o, a);
  std::string ir = "["; for (size_t i = 0; i < n; ++i) { auto x = (i & 1) ? range_js(ca[i]) : range_js(a[i]); if (x != "[]") { if (ir.size() > 1) ir += ','; ir += "[" + std::to_string(i) + "," + x + "]"; } }
  o.raw("isp", ir + "]").raw("rsz", some_js(n, [&](size_t i) { return (long)ca[i].size(); })).raw("deg", some_js(n, [&](size_t i) { return (long)nw::graph::degree(ca, (unsigned)i); }))
   .raw("degn", some_js(n, [&](size_t i) { return (long)nw::graph::degree(ca[i]); }));
  o.kv("size", n).kv("dist", (long)(a.end() - a.begin())).kv("nv", nw::graph::num_vertices(ca));
  if constexpr (requires { ca.num_edges(); }) o.kv("m", ca.num_edges());
  if constexpr (requires { ca.get_indices(); }) {
    auto ind = ca.get_indices(); o.kv("inds", ind.size()).raw("ind", some_js(ind.size(), [&](size_t i) { return i ? (long)ind[i] - (long)ind[i - 1] : (long)ind[0]; }));   // the steps
    std::vector<long> src; for (size_t e = 0; e < ca.to_be_indexed_.size(); ++e) src.push_back(ca.source(e));
    o.kv("src", src);
  }
  return o.str();
}
template <class A> std::string observe_rows(A& a) {   // everything visible of an adjacency-like structure
  const A& ca = a;
  if (sparse_size(ca.size())) return observe_wide(a);
  Ev o("obs");
  o.raw("rows", rows_js(a)).raw("crows", rows_js(ca));
  std::string ir = "["; std::vector<long> rsz, deg, degn;
  size_t n = ca.size();
  for (size_t i = 0; i < n; ++i) {
    if (i) ir += ',';
    ir += (i & 1) ? range_js(ca[i]) : range_js(a[i]);
    rsz.push_back((long)ca[i].size());
    deg.push_back((long)nw::graph::degree(ca, (unsigned)i)); degn.push_back((long)nw::graph::degree(ca[i]));
  }
  o.raw("irows", ir + "]").kv("rsz", rsz).kv("deg", deg).kv("degn", degn);
  o.kv("size", n).kv("dist", (long)(a.end() - a.begin())).kv("nv", nw::graph::num_vertices(ca));
  if constexpr (requires { ca.num_edges(); }) o.kv("m", ca.num_edges());
  if constexpr (requires { ca.get_indices(); }) {
    o.kv("ind", ca.get_indices());
    std::vector<long> src; for (size_t e = 0; e < ca.to_be_indexed_.size(); ++e) src.push_back(ca.source(e));
    o.kv("src", src);
  }
  return o.str();
}

// Input graphs: those enumerated from the specification, then random ones.
struct Shape { unsigned maxn = 12, maxm = 30; bool loops = true, multi = true; int maxw = 9; unsigned minn = 0, bign = 0, bigm = 0; };
// consecutive layers, almost completely connected: many ways that differ little
inline G layered_graph(Rng& r, unsigned maxn, int maxw) {
  G g; g.cls = "layers"; std::vector<std::vector<unsigned>> l; unsigned n = 0;
  for (unsigned k = 3 + rn(r, 2); k--;) { l.emplace_back(); for (unsigned j = 1 + rn(r, 3); j-- && n < maxn;) l.back().push_back(n++); }
  g.n = n; std::vector<unsigned> p(n); for (unsigned i = 0; i < n; ++i) p[i] = i; if (rn(r, 2)) std::shuffle(p.begin(), p.end(), r);
  auto w = [&] { return 1 + (int)rn(r, rn(r, 2) ? maxw : 3); };
  for (size_t k = 0; k + 1 < l.size(); ++k) for (unsigned u : l[k]) for (unsigned v : l[k + 1]) if (rn(r, 8)) g.e.push_back({p[u], p[v], w()});
  for (unsigned j = rn(r, 3); j-- && n;) g.e.push_back({p[rn(r, n)], p[rn(r, n)], w()});
  return g;
}
// beyond the sizes of blocks, bytes and thresholds: random, a vertex with very many neighbors, a long path, the last vertices only
inline G big_graph(Rng& r, const Shape& sh, long j) {
  static const char* cls[] = {"many", "hub", "path", "ends"};
  G g; g.n = sh.bign / 2 + rn(r, sh.bign / 2); unsigned m = sh.bigm / 2 + rn(r, sh.bigm / 2), k = j % 4, h = (j / 4) % 3 == 0 ? g.n - 1 : (j / 4) % 3 == 1 ? 0 : rn(r, g.n); g.cls = cls[k];
  for (unsigned i = 0; i < m; ++i) {
    unsigned u = rn(r, g.n), v = rn(r, g.n);
    if (k == 1 && rn(r, 4)) u = h; if (k == 2) { u = i % g.n; v = (i + 1) % g.n; } if (k == 3) { u = g.n - 1 - u / 8; v = v / 8; }
    if (rn(r, 2) && k != 3) std::swap(u, v);
    if (!sh.loops && u == v) continue;
    g.e.push_back({u, v, 1 + (int)rn(r, sh.maxw)});
  }
  if (!sh.multi) { std::set<std::pair<unsigned, unsigned>> s; std::erase_if(g.e, [&](auto& e) { return !s.insert({e.u, e.v}).second; }); }
  return g;
}
// more vertices than 16 bits can tell apart, very few edges, many of them between ids that agree in their lower bits
inline G wide_graph(Rng& r, const Shape& sh) {
  G g; g.n = 65530 + rn(r, 6000); g.cls = "wide"; std::vector<unsigned> pool{0, 1, 255, 256, 65535, 65536, 65537, g.n - 1};
  for (int i = 0; i < 8; ++i) { unsigned u = rn(r, g.n); pool.push_back(u); pool.push_back((u + 65536) % g.n); }
  std::erase_if(pool, [&](unsigned u) { return u >= g.n; });
  for (unsigned i = 0, m = 10 + rn(r, 30); i < m; ++i) { unsigned u = pool[rn(r, pool.size())], v = pool[rn(r, pool.size())]; if (!sh.loops && u == v) continue; g.e.push_back({u, v, 1 + (int)rn(r, sh.maxw)}); }
  if (!sh.multi) { std::set<std::pair<unsigned, unsigned>> s; std::erase_if(g.e, [&](auto& e) { return !s.insert({e.u, e.v}).second; }); }
  return g;
}
// With reps=R every graph is used R times; maxn= and maxm= bound the random ones.
template <class F> void each_graph(Shape sh, F&& f0) {
  long idx = 0, reps = 1, layers = 0;
  auto num = [](const char* k, auto& v) { auto i = opt.ex.find(k); if (i != opt.ex.end()) v = std::atol(i->second.c_str()); };
  num("reps", reps); num("maxn", sh.maxn); num("maxm", sh.maxm); num("layers", layers);
  auto f = [&](const std::string& id, const G& g, long k) { for (long r = 0; r < reps; ++r) f0(r ? id + "x" + std::to_string(r) : id, g, k + r); };
  if (!opt.cases.empty()) for (auto& b : read_groups(opt.cases)) {
    G g; g.n = b[0][0]; g.cls = "gen"; g.ops.assign(b[0].begin() + 1, b[0].end());
    for (size_t j = 1; j < b.size(); ++j) if (b[j].size() >= 3) g.e.push_back({(unsigned)b[j][0], (unsigned)b[j][1], (int)b[j][2]});
    long k = idx++;
    f("g" + std::to_string(k), g, k);
  }
  Rng r(opt.seed);
  for (long j = 0; j < opt.count; ++j) {
    unsigned big = rn(r, 4);
    G g = random_graph(r, big == 0 ? sh.maxn : std::max(4u, sh.maxn / (1 + big)), big == 0 ? sh.maxm : std::max(6u, sh.maxm / (1 + big)), sh.loops, sh.multi, sh.maxw, sh.minn);
    if (layers && (long)rn(r, 100) < layers) { g = layered_graph(r, sh.maxn, sh.maxw); if (!sh.loops) std::erase_if(g.e, [](auto& x) { return x.u == x.v; }); }
    f("r" + std::to_string(j) + g.cls, g, j);
  }
  long bigs = 0; num("big", bigs);
  for (long j = 0; sh.bign && j < bigs; ++j) { G g = big_graph(r, sh, j); f("b" + std::to_string(j) + g.cls, g, rn(r, 120)); }
  long wides = 0; num("wide", wides);
  for (long j = 0; j < wides; ++j) { G g = wide_graph(r, sh); f("w" + std::to_string(j), g, rn(r, 120)); }
}
}    // namespace vf
