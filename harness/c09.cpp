// Ranges and iterators over graphs.
#include "traits_std.hpp"
#include "gr.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using D = directedness;
Ev en(const char* what) { Ev e("enum"); e.kv("what", what); return e; }
template <class R> std::string plain_js(R&& r, bool ids) {   // tuples <u> or <u, row>
  std::string s = "["; bool f = true;
  for (auto it = r.begin(); it != r.end(); ++it) {
    if (!f) s += ','; f = false; auto t = *it; s += '['; vf::js(s, (long)std::get<0>(t));
    if constexpr (std::tuple_size_v<decltype(t)> == 2) { s += ','; if (ids) vf::js(s, (long)0); else { if constexpr (!std::is_integral_v<std::remove_cvref_t<decltype(std::get<1>(t))>>) s += vf::range_js(std::get<1>(t)); else vf::js(s, (long)std::get<1>(t)); } }
    s += ']';
  }
  return s + "]";
}
template <std::size_t... Is, class A> void edges(vf::Case& c, A& a, size_t off, int how) {
  c.at("edge range");
  auto r = [&] { if (how & 1) return make_edge_range<Is...>(a, off); else return edge_range<A, Is...>(a, off); }();
  std::string s = "["; bool f = true; auto put = [&](auto&& x) { if (!f) s += ','; f = false; s += vf::rec_js(std::remove_cvref_t<decltype(x)>(x)); };
  long d = 0;
  if (how & 2) { for (auto it = r.begin(); !(it == r.end()); it++) { put(*it); ++d; } }
  else if (how & 4) { auto it = r.begin(), e = r.end(); while (it != e) { auto old = it++; put(*old); ++d; } }
  else if (how & 8) { const auto& cr = r; for (auto it = cr.begin(), e = cr.end(); it != e; ++it) { auto t = it; put(*t.operator->().operator->()); ++d; } }
  else { for (auto&& x : r) put(x); d = std::distance(r.begin(), r.end()) * 0 + (long)std::count_if(r.begin(), r.end(), [](auto&&) { return true; }); }
  c.add(en("edge").kv("off", off).kv("cols", std::vector<long>{(long)Is...}).raw("seq", s + "]").kv("size", r.size()).kv("empty", r.empty()).kv("dist", d));
}
template <class B> void iter(vf::Case& c, B b, B e, const std::function<std::string(B)>& at, const char* extra, long x) {
  long n = e - b; if (n == 0) return;
  long i = c.rnd(n), j = c.rnd(n); auto p = b + i, r = b + j;
  Ev it("iter"); it.kv("i", i).kv("j", j).kv("d", (long)(r - p)).kv("cmp", std::vector<bool>{p < r, p <= r, p == r, p != r, p > r, p >= r});
  std::string s = "[" + at(p); { auto t = b; t += i; s += "," + at(t); auto u = e; u -= n - i; s += "," + at(u); s += "," + at(e - (n - i)); auto w = t; s += "," + at(w++); s += "," + at(--w); auto z = w; s += "," + at(z--); }
  std::vector<long> st; auto t = p;
  st.push_back((t++) - b); st.push_back(t - b); st.push_back((t--) - b); st.push_back(t - b); st.push_back((++t) - b); st.push_back((--t) - b); t += j - i; st.push_back(t - b); t -= j - i; st.push_back(t - b); { auto u = t; t = r; t = u; } st.push_back(t - b);
  it.raw("at", s + "]").kv("steps", st); if (extra) it.kv(extra, x);
  c.add(it);
}
template <class A> void outer(vf::Case& c, A& a) {
  c.at("outer iteration");
  c.add(en("outer").kv("off", 0).raw("seq", vf::rows_js(a)).kv("dist", (long)std::distance(a.begin(), a.end())));
  std::string s = "["; bool f = true; for (auto it = a.end(); it != a.begin();) { --it; if (!f) s += ','; f = false; s += vf::range_js(*it); }
  c.add(en("outer backwards").kv("off", 0).raw("seq", s + "]"));
  using R = std::reverse_iterator<decltype(a.begin())>; s = "["; f = true;
  for (R it(a.end()), e(a.begin()); it != e; ++it) { if (!f) s += ','; f = false; s += vf::range_js(*it); }
  c.add(en("outer backwards").kv("off", 0).raw("seq", s + "]"));
  iter<decltype(a.begin())>(c, a.begin(), a.end(), [](auto it) { return vf::range_js(*it); }, nullptr, 0);
  c.at("inner iteration");
  if constexpr (requires { --a.begin()->begin(); } || requires { --(*a.begin()).begin(); }) {
    s = "["; f = true;
    for (auto&& r : a) { if (!f) s += ','; f = false; std::string q = "["; bool g = true; for (auto it = r.end(); it != r.begin();) { --it; if (!g) q += ','; g = false; q += vf::rec_js(std::remove_cvref_t<decltype(*it)>(*it)); } s += q + "]"; }
    c.add(en("inner backwards").kv("off", 0).raw("seq", s + "]"));
  }
  if constexpr (requires { (*a.begin()).begin() + 1; }) {
    long u = 0; for (auto&& r : a) { using I = decltype(r.begin()); if (r.begin() != r.end()) iter<I>(c, r.begin(), r.end(), [](I it) { return vf::rec_js(std::remove_cvref_t<decltype(*it)>(*it)); }, "row", u); ++u; }
  }
}
template <int na, bool withedges, class A> void all(vf::Case& c, A& a, long var) {
  size_t n = a.size(), off = n ? c.rnd(n + 1) : 0;
  outer(c, a);
  c.at("vertex range"); { vertex_range<std::remove_const_t<A>> r((typename vertex_range<std::remove_const_t<A>>::vertex_id_type)n); std::string s = "["; bool f = true; for (auto it = r.begin(); it != r.end(); it++) { if (!f) s += ','; f = false; s += "[" + std::to_string(*it) + "]"; }
    c.add(en("vertex").kv("off", 0).raw("seq", s + "]").kv("size", (long)r.size()).kv("empty", r.empty()).kv("dist", (long)(r.end() - r.begin())));
    using B = decltype(r.begin()); iter<B>(c, r.begin(), r.end(), [](B it) { return "[" + std::to_string(*it) + "]"; }, "ids", 1); }
  for (size_t o : {size_t(0), off}) {
    c.at("plain range"); { auto r = o ? make_plain_range(a, o) : make_plain_range(a); c.add(en("plain").kv("off", o).raw("seq", plain_js(r, false)).kv("size", r.size()).kv("empty", r.empty()).kv("dist", (long)(r.end() - r.begin()))); }
    c.at("neighbor range"); { auto r = o ? make_neighbor_range(a, o) : make_neighbor_range(a); const auto& cr = r; c.add(en("neighbor").kv("off", o).raw("seq", var & 1 ? plain_js(r, false) : plain_js(cr, false)).kv("size", r.size()).kv("empty", r.empty()).kv("dist", (long)(r.end() - r.begin()))); }
    if constexpr (withedges) {
      edges<>(c, a, o, c.rnd(16));
      if constexpr (na >= 1 && !std::is_const_v<A>) edges<0>(c, a, o, c.rnd(16));
      if constexpr (na >= 2 && !std::is_const_v<A>) { edges<1>(c, a, o, c.rnd(16)); edges<1, 0>(c, a, o, c.rnd(16)); edges<0, 1>(c, a, o, c.rnd(16)); }
    }
  }
  if constexpr (!std::is_const_v<A>) { c.at("degree range"); plain_degree_range<A> r(a); c.add(en("degree").kv("off", 0).raw("seq", plain_js(r, false)).kv("size", r.size())); }
}
template <int na, class A> void write(vf::Case& c, A& a) {
  if constexpr (na > 0) { c.at("writing through an edge range"); for (auto&& e : make_edge_range<0>(a)) std::get<2>(e) += 5; Ev w("write"); w.kv("by", 5).raw("rows", vf::rows_js(a)); c.add(w); }
}
template <int idx, int na, class A, class L> void graph_case(const char* name, const std::string& id, const vf::G& g, long var, bool dir) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    c.kv("n", (long)g.n); vf::raw(c, "e", vf::edges_js<L>(g));
    L l = vf::make_list<L>(g); A a(l); const A& ca = a;
    Ev r("rows"); r.kv("idx", idx).kv("dir", dir).raw("rows", vf::rows_js(a)); c.add(r);
    all<na, true>(c, a, var); all<na, true>(c, ca, var);
    write<na>(c, a);
  });
}
template <class R> void stdgraph(const char* name, const std::string& id, const vf::G& g, long var) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    using L = edge_list<D::directed>;
    c.kv("n", (long)g.n); vf::raw(c, "e", vf::edges_js<L>(g));
    R a(g.n); for (auto& x : g.e) a[x.u].push_back(typename R::value_type::value_type(x.v)); const R& ca = a;
    Ev r("rows"); r.kv("idx", 0).kv("dir", true).raw("rows", vf::rows_js(a)); c.add(r);
    all<0, false>(c, a, var); all<0, false>(c, ca, var);
    c.at("edge range of a standard container");
    if constexpr (!std::is_integral_v<typename R::value_type::value_type>) edges<>(c, a, c.rnd(g.n + 1), c.rnd(16));
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  each_graph(Shape{.maxn = 12, .maxm = 24, .bign = 300, .bigm = 700}, [&](const std::string& id, const G& g, long k) {
    bool d = k & 1;
#if IN_PART(0)
    if (k % 3 == 0) graph_case<0, 0, adjacency<0>, edge_list<D::directed>>("a0", id, g, k, true);
    if (k % 3 == 1) graph_case<1, 1, adjacency<1, int>, edge_list<D::directed, int>>("a1", id, g, k, true);
    if (k % 3 == 2) graph_case<0, 2, adjacency<0, int, double>, edge_list<D::undirected, int, double>>("u2", id, g, k, false);
#endif
#if IN_PART(1)
    if (k % 3 == 0) graph_case<0, 1, biadjacency<0, int>, bi_edge_list<D::directed, int>>("b0", id, g, k, true);
    if (k % 3 == 1) graph_case<1, 2, biadjacency<1, int, double>, bi_edge_list<D::directed, int, double>>("b1", id, g, k, true);
    if (k % 3 == 2) graph_case<0, 2, vov<0, int, double>, edge_list<D::directed, int, double>>("vov", id, g, k, true);
    if (k % 3 == 1) graph_case<0, 1, adj_list<0, int>, edge_list<D::directed, int>>("adjlist", id, g, k, true);
#endif
#if IN_PART(2)
    if (k % 3 == 0) stdgraph<std::vector<std::vector<std::tuple<size_t>>>>("vvt", id, g, k);
    if (k % 3 == 1) stdgraph<std::vector<std::list<std::tuple<unsigned>>>>("vlt", id, g, k);
    if (k % 3 == 2) stdgraph<std::vector<std::vector<unsigned>>>("vvi", id, g, k);
#endif
    (void)d;
  });
}
