// PageRank.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/algorithms/page_rank.hpp"
#include "nwgraph/experimental/algorithms/page_rank.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
constexpr double S = 5e7;
template <class R> std::string score_js(const std::vector<R>& x) { std::vector<long> k; for (auto v : x) { double q = v * S; k.push_back(q > -2e8 && q < 2e8 ? std::lround(q) : 200000000); } std::string s; vf::js(s, k); return s; }
struct Results : vf::Distinct { template <class R> void add(const char* f, const std::vector<R>& x) { put(Ev(f).raw("x", score_js(x))); } };
template <class Real, class A> void ranks(vf::Case& c, const A& a, const vf::G& g, bool undirected) {
  size_t n = num_vertices(a); using V = typename A::vertex_id_type;
  constexpr bool comp = requires { a.to_be_indexed_; };
  std::vector<V> deg(n); for (auto& x : g.e) { ++deg[x.u]; if (undirected) ++deg[x.v]; }
  for (int round = 0; round < (n > 100 ? 1 : 2); ++round) {
    static const int ps[] = {17, 10, 19, 2, 14, 18}; int p = ps[c.rnd(6)];
    long thr = std::is_same_v<Real, float> ? (c.rnd(2) ? 500000 : 20000) : std::array<long, 4>{500000, 50000, 5000, 100}[c.rnd(4)];
    if (n > 100) thr = std::is_same_v<Real, float> ? 20000 : 5000;
    Real d = (Real)p / 20, tol = (Real)(thr / S); size_t iters = 200000, t = vf::some_threads(c); Results r;
    vf::Quiet quiet;
    auto run = [&](const char* f, auto&& call) { c.at(f); vf::schedules([&] { std::vector<Real> x(n, c.rnd(2) ? 0 : 7); vf::threads(t, [&] { call(x); }); r.add(f, x); }); };
#if IN_PART(0)
    run("page_rank", [&](auto& x) { page_rank(a, deg, x, d, tol, iters, t); });
    run("page_rank again", [&](auto& x) { page_rank(a, deg, x, d, tol, iters, t); });
    run("v1", [&](auto& x) { page_rank_v1(a, deg, x, d, tol, iters); });
    if (n <= 100) run("v2", [&](auto& x) { page_rank_v2(a, deg, x, d, tol, iters); });
    if (n <= 100) run("v4", [&](auto& x) { page_rank_v4(a, deg, x, d, tol, iters, 1 + c.rnd(5)); });
    if constexpr (comp && std::tuple_size_v<typename A::attributes_t> == 0) { run("vc", [&](auto& x) { page_rank_vc(a, x, d, tol, iters); }); run("v6", [&](auto& x) { page_rank_v6(a, deg, x, d, tol, iters); }); }
#endif
#if IN_PART(1)
    run("v8", [&](auto& x) { page_rank_v8(a, deg, x, d, tol, iters); });
    run("v9", [&](auto& x) { page_rank_v9(a, deg, x, d, tol, iters, t); });
    run("v10", [&](auto& x) { page_rank_v10(a, deg, x, d, tol, iters, t); });
    run("v14", [&](auto& x) { page_rank_v14(a, deg, x, d, tol, iters); });
#endif
    c.add(Ev("ranks").kv("p", p).kv("thr", thr).kv("slack", std::is_same_v<Real, float> ? (long)n * 60 + 2000 : 0L).raw("res", r.s + "]"));
  }
}
template <class Real, class A, class F> void drive(const char* name, const std::string& id, const vf::G& g, bool undirected, F&& f) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) { A a = f(); vf::raw(c, "rows", vf::rows_js(a)); ranks<Real>(c, a, g, undirected); });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  Rng r(opt.seed + 3);
  auto one = [&](const std::string& id, const G& g0, long k) {
    G g = g0; if (!g.n) return; bool und = k % 5 == 4;
    std::vector<bool> out(g.n); for (auto& x : g.e) { out[x.u] = true; if (und) out[x.v] = true; }
    for (unsigned v = 0; v < g.n; ++v) if (!out[v]) g.e.push_back({v, rn(r, g.n), 1});
    using L0 = edge_list<D::directed>; using L1 = edge_list<D::directed, int>; using U0 = edge_list<D::undirected>;
    switch (k % 5) {
      case 0: drive<double, adjacency<1>>("double", id, g, false, [&] { auto l = make_list<L0>(g); return adjacency<1>(l); }); break;
      case 1: drive<float, adjacency<1>>("float", id, g, false, [&] { auto l = make_list<L0>(g); return adjacency<1>(l); }); break;
      case 2: drive<double, adjacency<1, int>>("weighted", id, g, false, [&] { auto l = make_list<L1>(g); return adjacency<1, int>(l); }); break;
      case 3: if (g.n < 100) drive<double, vov<0, int>>("vov", id, g, false, [&] { G h = g; for (auto& x : h.e) std::swap(x.u, x.v); auto l = make_list<L1>(h); return vov<0, int>(l); }); break;
      case 4: drive<double, adjacency<0>>("undirected", id, g, true, [&] { auto l = make_list<U0>(g); return adjacency<0>(l); }); break;
    }
  };
  each_graph(Shape{30, 120, true, true, 9, 1}, one);
  large_graphs(900, 5000, one);
}
