// Connected components.
#include "traits_std.hpp"
#include "alg.hpp"
#include <unordered_map>
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/AtomicBitVector.hpp"
#include "nwgraph/util/atomic.hpp"
#include "nwgraph/util/util.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/experimental/algorithms/connected_components.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
struct Results : vf::Distinct { template <class P> void add(const char* f, const P& p) { std::vector<unsigned> q; for (auto& x : p) q.push_back(x); put(Ev(f).kv("l", q)); } };
// g: the graph; gt: its transpose (g itself when symmetric, or an empty graph when symmetric)
template <class A, class B> void components(vf::Case& c, A& g, B& gt, bool sym) {
  Results r; size_t t = vf::some_threads(c); vf::Quiet quiet;
  auto run = [&](const char* f, auto&& call) { c.at(f); vf::schedules([&] { r.add(f, vf::threads(t, call)); }); };
  const A& cg = g; const B& cgt = gt; size_t n = g.size();
#if IN_PART(0)
  for (size_t k : {(size_t)2, (size_t)c.rnd(4), (size_t)c.rnd(3)}) {
    run("afforest seq", [&] { return afforest(std::execution::seq, cg, cgt, k); });
    run("afforest par", [&] { return afforest(std::execution::par_unseq, cg, cgt, k); });
  }
  run("afforest", [&] { return afforest(std::execution::par_unseq, cg, cgt); });
  if (n) for (size_t k : {(size_t)2, (size_t)c.rnd(4)}) run("Afforest", [&] { return Afforest(cg, gt, k); });
#endif
#if IN_PART(1)
  if (n) {
    run("ccv1", [&] { return ccv1(cg); });
    run("sv_v6", [&] { return sv_v6(cg); });
    run("sv_v8", [&] { return sv_v8(g); });
    if constexpr (std::tuple_size_v<typename A::attributes_t> == 0) run("sv_v9", [&] { return sv_v9(g); });
    run("v2", [&] { return compute_connected_components_v2(cg); });
    if (sym) {
      run("ccv5", [&] { return ccv5(cg); });
      int bins = 1 + c.rnd(c.rnd(2) ? 60 : 4);
      run("lpcc seq", [&] { return lpcc(std::execution::seq, g, bins); });
      run("lpcc par", [&] { return lpcc(std::execution::par_unseq, g, bins); });
    }
  }
#endif
  c.add(Ev("cc").raw("res", r.s + "]"));
#if IN_PART(0)
  if (n && n < 100) {
    c.at("verifier"); auto good = afforest(std::execution::seq, cg, cgt); std::vector<unsigned> l(good.begin(), good.end());
    for (int k = 0; k < 6; ++k) {
      auto x = l; int how = c.rnd(4);
      if (k == 0) how = -1;
      if (how == 0) x[c.rnd(n)] = x[c.rnd(n)];                                    // a vertex moved
      if (how == 1) { unsigned p = x[c.rnd(n)], q = x[c.rnd(n)]; for (auto& y : x) if (y == p) y = q; }   // components joined
      if (how == 2) { unsigned v = c.rnd(n); x[v] = v + n; }                       // a vertex split off
      if (how == 3) for (auto& y : x) y = (y * 7 + 3) % (8 * n);                   // renamed (7y + 3 < 8n)
      bool ok = CCVerifier(cg, cgt, x); c.add(Ev("verify").kv("l", x).kv("ok", ok));
    }
  }
#endif
}
template <class A> void show(vf::Case& c, A& a) { vf::raw(c, "rows", vf::rows_js(a)); }
template <class F> void drive(const char* name, const std::string& id, F&& f) { vf::run_case(std::string(name) + "/" + id, f); }
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k) {
    using L0 = edge_list<D::directed>; using L1 = edge_list<D::directed, int>; using U0 = edge_list<D::undirected>; using U1 = edge_list<D::undirected, int>;
    switch (k % 4) {
      case 0: drive("a0", id, [&](Case& c) { auto l = make_list<L0>(g); adjacency<0> a(l); auto m = make_list<L0>(g); adjacency<1> b(m); show(c, a); components(c, a, b, false); }); break;
      case 1: drive("u0", id, [&](Case& c) { auto l = make_list<U0>(g); adjacency<0> a(l); show(c, a); components(c, a, a, true); }); break;
      case 2: drive("a1", id, [&](Case& c) { auto l = make_list<L1>(g); adjacency<0, int> a(l); auto m = make_list<L1>(g); adjacency<1, int> b(m); show(c, a); components(c, a, b, false); }); break;
      case 3: drive("u1", id, [&](Case& c) { auto l = make_list<U1>(g); adjacency<0, int> a(l); adjacency<0, int> e(0); show(c, a); components(c, a, e, true); }); break;
    }
  };
  each_graph(Shape{40, 60}, one);
  large_graphs(1500, 2500, one);
}
