// Bipartite, list-based and standard-container graphs.
#include "traits_std.hpp"
#include "gr.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/vofos.hpp"
#include <list>
#include <forward_list>
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
template <class A> std::string obs_plain(A& a) { Ev o("obs"); o.raw("rows", vf::rows_js(a)).kv("size", (size_t)std::distance(a.begin(), a.end())); return o.str(); }
Ev store(const char* how, int idx) { Ev e("store"); e.kv("how", how).kv("idx", idx); return e; }

template <int idx, class B, class L> void bi(const std::string& id, const vf::G& g0, long var) {
  vf::run_case("bi" + std::to_string(idx) + std::to_string(vf::n_attr<L>) + "/" + id, [&](vf::Case& c) {
    vf::G g = g0; for (auto& x : g.e) { if (var % 3 == 1) x.v = x.v / 2; if (var % 3 == 2) x.u = x.u + 3; }
    size_t d0 = var % 4 == 0 ? g.n : c.rnd(6), d1 = var % 4 == 1 ? g.n + 1 : c.rnd(6);
    c.kv("kind", "bi").kv("decl", std::vector<size_t>{d0, d1}); raw(c, "e", vf::edges_js<L>(g));
    c.at("edge list");
    L l(d0, d1); l.open_for_push_back(); for (auto& x : g.e) l.push_back(vf::elem_of<L>(x)); l.close_for_push_back();
    auto note = [&](const char* how, auto& b, bool sorted, long n = -1, long n1 = -1) {
      Ev e = store(how, idx); e.kv("sorted", sorted); if (n >= 0) e.kv("n", n); if (n1 >= 0) e.kv("n1", n1);
      e.kv("nvs", b.num_vertices()).raw("obs", vf::observe_rows(b)); c.add(e);
    };
    c.at("construct"); B b(l); note("list", b, false);
    c.at("copy"); { B b2(b); note("copy", b2, false); B b3(std::move(b2)); note("move", b3, false); }
    c.at("sorted"); { B b2(l, true); note("sorted", b2, true); }
    c.at("policies"); { B b2(l, var & 1, std::execution::seq); note("seq", b2, var & 1); B b3(l, var & 2, std::execution::par); note("par", b3, var & 2); }
    size_t ni = l.num_vertices()[idx], nj = l.num_vertices()[1 - idx];
    c.at("fill"); { B b2(ni, nj); auto r = fill_biadjacency<idx>(l, b2, (var & 4) != 0);
      Ev e = store("fill", idx); e.kv("sorted", (var & 4) != 0).kv("ret", (long)r).kv("nvs", b2.num_vertices()).raw("obs", vf::observe_rows(b2)); c.add(e); }
    c.at("array"); { std::array<size_t, 2> N{}; N[idx] = ni; N[1 - idx] = nj;   // in partition order
      std::array<size_t, 2> P{l.num_vertices()[0], l.num_vertices()[1]}; B b2(P, 0); fill_biadjacency<idx>(l, b2); note("array", b2, false); }
    c.at("vectors"); auto ind = b.get_indices(); auto tbi = b.get_to_be_indexed(); using tup = typename decltype(tbi)::storage_type;
    { B e1(nj, ind, (const tup&)tbi); note("vectors", e1, false); auto i2 = ind; B e2(nj, std::move(i2), tup((const tup&)tbi)); note("moved vectors", e2, false);
      std::apply([&](auto... cols) { B e3(nj, ind, cols...); note("columns", e3, false); auto i3 = ind; B e4(nj, std::move(i3), std::move(cols)...); note("moved columns", e4, false); }, (const tup&)tbi); }
    c.at("sort later"); { B b2(l); b2.sort_to_be_indexed(); note("sorted later", b2, true); }
    if constexpr (vf::n_attr<L> == 0) {
      c.at("make_biadjacency"); { auto b2 = make_biadjacency<idx>(l); note("make", b2, false); }
      unsigned a0 = ni + c.rnd(3), a1 = nj + c.rnd(3);
      c.at("make_biadjacency n"); { auto b2 = make_biadjacency<idx>(l, a0, a1); note("make n", b2, false, a0, a1); }
    }
  });
}
template <class L, bool dir> void lists(const std::string& id, const vf::G& g, long var) {
  vf::run_case(std::string(dir ? "ld/" : "lu/") + std::to_string(vf::n_attr<L>) + id, [&](vf::Case& c) {
    c.kv("kind", "uni").kv("n", (long)g.n); raw(c, "e", vf::edges_js<L>(g));
    L l = vf::make_list<L>(g);
    auto note = [&]<class A>(const char* how, A& a, bool d, auto&& more) {
      Ev o("obs"); vf::put_rows(o, a); o.kv("size", a.size()); more(o);
      Ev e = store(how, 0); e.kv("dir", d).raw("obs", o.str()); c.add(e); };
    auto none = [](Ev&) {};
    auto go = [&]<class... At>(std::tuple<At...>*) {
      c.at("adj_list"); { adj_list<0, At...> a(l); note("adj_list", a, dir, [&](Ev& o) { o.kv("nv", num_vertices(a)).kv("m", a.num_edges()); }); auto b = a; note("adj_list copy", b, dir, none); }
      c.at("vov"); { vov<0, At...> a(l); note("vov", a, dir, [&](Ev& o) { o.kv("nv", num_vertices(a)); }); }
      c.at("adj_list push_back_fill"); { adj_list<0, At...> a(l.num_vertices()[0]); push_back_fill(l, a); note("adj_list push_back_fill", a, true, none); }
      c.at("adj_list push_back"); { adj_list<0, At...> a(g.n / 2); a.open_for_push_back(); for (auto&& e : l) std::apply([&](auto... x) { a.push_back(x...); }, typename L::element(e)); a.close_for_push_back();
        for (size_t k = a.size(); k < l.num_vertices()[0]; ++k) a.emplace_back(); note("adj_list push_back", a, true, none); }
      auto grown = [&]<class A>(const char* how, A&& a) { c.at(how); a.open_for_push_back(); for (auto&& e : l) std::apply([&](auto... x) { a.push_back(x...); }, typename L::element(e)); a.close_for_push_back();
        for (size_t k = a.size(); k < l.num_vertices()[0]; ++k) a.emplace_back(); note(how, a, true, none); };
      grown("vov push_back", vov<0, At...>(g.n / 2)); grown("adj_flist push_back", adj_flist<0, At...>(g.n / 2));
      c.at("vov push_back_fill"); { vov<0, At...> a(l.num_vertices()[0]); push_back_fill(l, a); note("vov push_back_fill", a, true, none); }
      c.at("adj_flist push_back"); { adj_flist<0, At...> a(l.num_vertices()[0]); push_back_fill(l, a); note("adj_flist push_back_fill", a, true, [&](Ev& o) { o.kv("nv", num_vertices(a)); }); }
    };
    go((typename L::attributes_t*)nullptr);
  });
}
template <class A, class B> void joins(vf::Case& c, const A& G, const B& H) {
  c.at("join");
  auto one = [&](auto& g, auto& h) { auto L = join(g, h); Ev e("join"); e.raw("g", vf::rows_js(g)).raw("h", vf::rows_js(h)).raw("rows", vf::rows_js(L)); c.add(e); };
  one(G, H); one(H, G);
}
template <class E> auto props_of(const std::vector<E>&) { if constexpr (std::tuple_size_v<E> == 4) return std::tuple<int, double>{}; else return std::tuple<>{}; }
template <class T> std::string rec_list(const std::vector<T>& v) { return vf::range_js(v); }
template <class Lab, bool props> void builders(const std::string& id, const vf::G& g, long var) {
  vf::run_case(std::string(props ? "bp/" : "bn/") + (std::is_same_v<Lab, std::string> ? "s" : "i") + id, [&](vf::Case& c) {
    auto lab = [&](char p, unsigned k) { if constexpr (std::is_same_v<Lab, std::string>) return std::string(1, p) + std::to_string((k * 7 + 3) % 1009); else return (Lab)((k * 7 + 3) % 1009 + (p == 'R')); };
    std::vector<Lab> lv, rv; unsigned n0 = g.n, n1 = g.n + var % 3;
    for (unsigned k = 0; k < n0; ++k) lv.push_back(lab('L', k));
    for (unsigned k = 0; k < n1; ++k) rv.push_back(lab('R', k));
    std::shuffle(lv.begin(), lv.end(), c.rng); std::shuffle(rv.begin(), rv.end(), c.rng);
    bool bip = var & 1; auto& R = bip ? rv : lv;
    using E = std::conditional_t<props, std::tuple<Lab, Lab, int, double>, std::tuple<Lab, Lab>>;
    std::vector<E> es; for (auto& x : g.e) { if constexpr (props) es.push_back({lv[x.u], R[x.v], x.w, 2.0 * x.w}); else es.push_back({lv[x.u], R[x.v]}); }
    c.kv("kind", "label").kv("lv", lv).kv("rv", R); raw(c, "e", rec_list(es));
    auto note = [&](const char* how, const char* from, int idx, bool d, auto& G) { Ev e = store(how, idx); e.kv("from", from).kv("dir", d).raw("obs", obs_plain(G)); c.add(e); };
    if (!bip) for (int k = 0; k < 4; ++k) {
      int idx = k & 1; bool d = k & 2;
      c.at("make_plain_graph"); { auto G = make_plain_graph(lv, es, d, idx); note("plain", "plain", idx, d, G); }
      c.at("make_index_graph"); { auto G = make_index_graph(lv, es, d, idx); note("index", "index", idx, d, G); }
      c.at("make_property_graph"); { auto G = make_property_graph(lv, es, d, idx); note("property", "props", idx, d, G);
        using GL = std::vector<std::list<decltype(std::tuple_cat(std::make_tuple(size_t{}), props_of(es)))>>;
        auto G2 = make_property_graph<std::vector<Lab>, std::vector<E>, GL>(lv, es, d, idx); note("property list", "props", idx, d, G2); }
    }
    if (!bip) { c.at("make_index_edges"); auto m = make_index_map(lv); auto ie = make_index_edges(m, es); auto pe = make_property_edges(m, es); auto pl = make_plain_edges(m, es);
      c.add(Ev("edges").kv("from", "index").raw("edges", rec_list(ie))); c.add(Ev("edges").kv("from", "props").raw("edges", rec_list(pe))); c.add(Ev("edges").kv("from", "plain").raw("edges", rec_list(pl))); }
    if (bip) {
      c.at("data_to_graph_edge_list"); { auto ie = data_to_graph_edge_list(lv, rv, es); c.add(Ev("edges").kv("from", "plain").raw("edges", rec_list(ie))); }
      c.at("make_plain_bipartite_graphs"); { auto [G, H] = make_plain_bipartite_graphs(lv, rv, es); note("plain graphs", "plain", 0, true, G); note("plain graphs", "plain", 1, true, H); joins(c, G, H); }
      c.at("make_bipartite_graph"); { auto G = make_bipartite_graph<0>(lv, rv, es); note("bipartite", "plain", 0, true, G); auto H = make_bipartite_graph<1>(lv, rv, es); note("bipartite", "plain", 1, true, H); }
      if constexpr (!props) {
        c.at("make_plain_bipartite_graph"); { auto G = make_plain_bipartite_graph(lv, rv, es, 0); note("plain bipartite", "plain", 0, true, G); auto H = make_plain_bipartite_graph(lv, rv, es, 1); note("plain bipartite", "plain", 1, true, H); }
        c.at("make_bipartite_graphs"); { auto [G, H] = make_bipartite_graphs(lv, rv, es); note("bipartite graphs", "plain", 0, true, G); note("bipartite graphs", "plain", 1, true, H); joins(c, G, H); }
      }
    }
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  using D = directedness;
  each_graph(Shape{.maxn = 14, .maxm = 40, .bign = 300, .bigm = 600}, [&](const std::string& id, const G& g, long k) {
    bool all = id[0] != 'g';
#if IN_PART(0)
    if (all || k % 2 == 0) bi<0, biadjacency<0>, bi_edge_list<D::directed>>(id, g, k);
    if (all || k % 2 == 1) bi<1, biadjacency<1>, bi_edge_list<D::directed>>(id, g, k);
#endif
#if IN_PART(1)
    if (all || k % 2 == 1) bi<0, biadjacency<0, int>, bi_edge_list<D::directed, int>>(id, g, k);
    if (all || k % 2 == 0) bi<1, biadjacency<1, int, double>, bi_edge_list<D::directed, int, double>>(id, g, k);
#endif
#if IN_PART(2)
    if (all || k % 4 == 0) lists<edge_list<D::directed>, true>(id, g, k);
    if (all || k % 4 == 1) lists<edge_list<D::undirected>, false>(id, g, k);
    if (all || k % 4 == 2) lists<edge_list<D::directed, int, double>, true>(id, g, k);
    if (all || k % 4 == 3) lists<edge_list<D::undirected, int>, false>(id, g, k);
#endif
#if IN_PART(3)
    if (sparse_size(g.n)) return;
    if (all || k % 4 < 2) builders<std::string, false>(id, g, k / 4 + k);
    if (all || k % 4 >= 2) builders<std::string, true>(id, g, k / 4 + k);
    if (k % 4 == 3) builders<int, true>(id, g, k / 4 + 1);
    if (k % 4 == 1) builders<int, false>(id, g, k / 4 + 1);
#endif
  });
  Rng r(opt.seed + 77);
  for (long j = 0; j < std::atol(opt.ex["big"].c_str()); ++j) {
    G g; g.n = 50 + rn(r, 300); unsigned m = 1200 + rn(r, 1500); g.cls = "big"; for (unsigned i = 0; i < m; ++i) g.e.push_back({rn(r, g.n), rn(r, g.n), (int)i});
#if IN_PART(1)
    bi<0, biadjacency<0, int>, bi_edge_list<D::directed, int>>("b" + std::to_string(j), g, j);
#endif
  }
}
