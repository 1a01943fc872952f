// Compressed adjacency: every way of building one, from every kind of edge list.
#include "gr.hpp"
using namespace nw::graph;
namespace vf::drv {
template <class A, class L> void note(vf::Case& c, const char* how, A& a, bool sorted, long n = -1) {
  vf::Ev e("build"); e.kv("how", how).kv("sorted", sorted); if (n >= 0) e.kv("n", n);
  e.raw("obs", vf::observe_rows(a)); c.add(e);
}
template <int idx, class Adj, class L> void build(const std::string& id, const char* tag, const vf::G& g, bool directed, long variant) {
  vf::run_case(std::string(tag) + "/" + std::to_string(idx) + "/" + id, [&](vf::Case& c) {
    c.kv("n", (long)g.n).kv("idx", idx).kv("dir", directed); raw(c, "e", vf::edges_js<L>(g));
    L l = vf::make_list<L>(g);
    c.at("construct");
    { Adj a(l); note<Adj, L>(c, "list", a, false);
      c.at("copy"); Adj b(a); note<Adj, L>(c, "copy", b, false);
      Adj d(std::move(b)); note<Adj, L>(c, "move", d, false);
      c.at("vectors"); auto ind = a.get_indices(); auto tbi = a.get_to_be_indexed();
      using tup = typename decltype(tbi)::storage_type;
      if constexpr (std::is_same_v<typename Adj::index_t, typename Adj::vertex_id_type>) {
        std::vector<typename Adj::index_t> i2(ind);
        Adj e1(i2, (const tup&)tbi); note<Adj, L>(c, "from vectors", e1, false);
        Adj e2(std::vector<typename Adj::index_t>(ind), tup((const tup&)tbi)); note<Adj, L>(c, "from moved vectors", e2, false);
        std::apply([&](auto... cols) { Adj e3(i2, cols...); note<Adj, L>(c, "from columns", e3, false);
                                       Adj e4(std::move(i2), std::move(cols)...); note<Adj, L>(c, "from moved columns", e4, false); }, (const tup&)tbi);
      }
      c.at("copy into"); { Adj f(ind.size() - 1, a.num_edges()); f.copy(ind, (const tup&)tbi); note<Adj, L>(c, "copied into", f, false); }
    }
    c.at("construct sorted"); { Adj a(l, true); note<Adj, L>(c, "sorted", a, true); }
    c.at("construct seq"); { Adj a(l, variant & 1, std::execution::seq); note<Adj, L>(c, "seq", a, variant & 1); }
    c.at("construct par"); { Adj a(l, variant & 2, std::execution::par); note<Adj, L>(c, "par", a, variant & 2); }
    unsigned extra = c.rnd(4); size_t n = vf::rn(c.rng, 2) ? l.num_vertices()[0] + extra : (size_t)extra;
    // an explicit vertex count must cover the edges
    if (n >= l.num_vertices()[0]) { c.at("explicit count"); Adj a(n, l, (variant & 4) != 0); note<Adj, L>(c, "count", a, (variant & 4) != 0, n); }
    c.at("fill"); { Adj a(l.num_vertices()[0]); auto r = fill<idx>(l, a, (variant & 8) != 0);
      vf::Ev e("fill"); e.kv("sorted", (variant & 8) != 0).kv("ret", (long)r).raw("obs", vf::observe_rows(a)); c.add(e); }
    c.at("sort later"); { Adj a(l); a.sort_to_be_indexed(); note<Adj, L>(c, "sorted later", a, true); }
    if constexpr (vf::n_attr<L> == 0 && std::is_same_v<typename Adj::index_t, default_index_t>) {
      c.at("make_adjacency"); { auto a = make_adjacency<idx>(l); note<decltype(a), L>(c, "make", a, false); }
      auto d = directed ? directedness::directed : directedness::undirected;
      c.at("make_adjacency n"); { auto a = make_adjacency<idx>(l, (unsigned)(l.num_vertices()[0] + extra), d); note<decltype(a), L>(c, "make n", a, false, l.num_vertices()[0] + extra); }
      c.at("fill dir"); { Adj a(l.num_vertices()[0]); auto r = fill<idx>(l, a, d, true);
        vf::Ev e("fill"); e.kv("sorted", true).kv("ret", (long)r).raw("obs", vf::observe_rows(a)); c.add(e); }
    }
  });
}
// incremental assembly: entries arrive grouped by vertex in ascending order
template <class Adj, class F> void push(const std::string& id, const vf::G& g0, size_t declared, F&& pb) {
  vf::run_case(id, [&](vf::Case& c) {
    vf::G g = g0; std::stable_sort(g.e.begin(), g.e.end(), [](auto& a, auto& b) { return a.u < b.u; });
    c.kv("n", (long)declared);
    c.at("push_back"); Adj a(declared); a.open_for_push_back();
    for (auto& x : g.e) { vf::Ev e("push"); e.kv("u", x.u); pb(a, x, e); c.add(e); }
    a.close_for_push_back();
    vf::Ev e("build"); e.kv("ordered", true).raw("obs", vf::observe_rows(a)); c.add(e);
    c.at("copy"); Adj b(a); vf::Ev e2("build"); e2.kv("ordered", true).raw("obs", vf::observe_rows(b)); c.add(e2);
    c.at("sort"); b.sort_to_be_indexed(); vf::Ev e3("build"); e3.kv("sorted", true).raw("obs", vf::observe_rows(b)); c.add(e3);
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  using D = directedness;
  auto one = [&](const std::string& id, const G& g, long k) {
    bool all = id[0] != 'g';
#if IN_PART(0)
    if (all || k % 6 == 0) { build<0, adjacency<0>, edge_list<D::directed>>(id, "d0", g, true, k); }
    if (all || k % 6 == 1) { build<1, adjacency<1>, edge_list<D::directed>>(id, "d0", g, true, k); }
#endif
#if IN_PART(1)
    if (all || k % 6 == 2) { build<0, adjacency<0>, edge_list<D::undirected>>(id, "u0", g, false, k); build<1, adjacency<1>, edge_list<D::undirected>>(id, "u0", g, false, k); }
#endif
#if IN_PART(2)
    if (all || k % 6 == 3) { build<0, adjacency<0, int>, edge_list<D::directed, int>>(id, "d1", g, true, k); build<1, adjacency<1, int, double>, edge_list<D::directed, int, double>>(id, "d2", g, true, k); }
#endif
#if IN_PART(3)
    if (all || k % 6 == 4) { build<0, adjacency<0, int, double>, edge_list<D::undirected, int, double>>(id, "u2", g, false, k); build<1, adjacency<1, int>, edge_list<D::undirected, int>>(id, "u1", g, false, k); }
#endif
#if IN_PART(4)
    if (all || k % 6 == 5) {
      build<0, adjacency<0, double, int, unsigned char>, edge_list<D::directed, double, int, unsigned char>>(id, "d3", g, true, k);
      build<0, index_adjacency<0, uint64_t, uint64_t, int>, index_edge_list<uint64_t, unipartite_graph_base, D::directed, int>>(id, "l1", g, true, k);
    }
#endif
#if IN_PART(5)
    size_t decl = k % 3 == 0 ? g.n : k % 3 == 1 ? 0 : g.n / 2;
    if (all || k % 2 == 0) push<adjacency<0>>("p0/" + id, g, decl, [](auto& a, auto& x, auto& e) { a.push_back(x.u, x.v); e.kv("x", std::vector<long>{x.v}); });
    if (all || k % 2 == 1) push<adjacency<0, int, double>>("p2/" + id, g, decl, [](auto& a, auto& x, auto& e) { a.push_back(x.u, x.v, x.w, 2.0 * x.w); e.kv("x", std::vector<long>{x.v, x.w, 2 * x.w}); });
#endif
  };
  each_graph(Shape{.maxn = 14, .maxm = 40, .bign = 300, .bigm = 600}, one);
  // beyond the sequential cutoffs of the parallel algorithms
  Rng r(opt.seed + 77);
  for (long j = 0; j < std::atol(opt.ex["big"].c_str()); ++j) {
    G g; g.n = 50 + rn(r, 300); unsigned m = 1200 + rn(r, 1500); g.cls = "big";
    for (unsigned i = 0; i < m; ++i) { unsigned u = rn(r, g.n), v = rn(r, g.n); if (u != v) g.e.push_back({u, v, (int)i}); }
    std::string id = "b" + std::to_string(j);
#if IN_PART(2)
    build<0, adjacency<0, int>, edge_list<D::directed, int>>(id, "d1", g, true, j);
#endif
#if IN_PART(3)
    build<1, adjacency<1, int>, edge_list<D::undirected, int>>(id, "u1", g, false, j);
#endif
  }
}
