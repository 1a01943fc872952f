// Betweenness centrality.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#if PART == 1
#include "nwgraph/util/util_par.hpp"
#include "nwgraph/experimental/algorithms/betweenness_centrality.hpp"
#else
#include "nwgraph/algorithms/betweenness_centrality.hpp"
#endif
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
constexpr double unit = 10000;
template <class V> std::vector<long> scaled(const V& v) { std::vector<long> r; for (auto x : v) { double y = (double)x * unit; r.push_back(std::isfinite(y) && std::abs(y) < 2e9 ? std::lround(y) : vf::JUNK); } return r; }
struct Results : vf::Distinct { template <class P> void add(const char* f, const P& p) { put(Ev(f).kv("s", scaled(p))); } };
void event(vf::Case& c, const std::vector<unsigned>& src, bool own, bool norm, const Results& r) { c.add(Ev("bc").kv("src", src).kv("own", own).kv("norm", norm).raw("res", r.s + "]")); }
// scores to show to the verifier
template <class A> std::vector<double> scores(const A& g, const std::vector<unsigned>& src, bool norm) {
  size_t n = num_vertices(g); std::vector<double> b(n);
  for (unsigned s : src) {
    std::vector<long> d(n, -1); std::vector<double> sig(n), dep(n); std::vector<unsigned> q{s}; d[s] = 0; sig[s] = 1;
    for (size_t i = 0; i < q.size(); ++i) for (auto&& e : g[q[i]]) { unsigned v = std::get<0>(e); if (d[v] < 0) { d[v] = d[q[i]] + 1; q.push_back(v); } if (d[v] == d[q[i]] + 1) sig[v] += sig[q[i]]; }
    for (size_t i = q.size(); i--;) { unsigned u = q[i]; for (auto&& e : g[u]) { unsigned v = std::get<0>(e); if (d[v] == d[u] + 1) dep[u] += sig[u] / sig[v] * (1 + dep[v]); } b[u] += dep[u]; }
  }
  if (norm) { double m = *std::max_element(b.begin(), b.end()); if (m > 0) for (auto& x : b) x /= m; }
  return b;
}
#if PART == 1
template <class A> void parallel(vf::Case& c, const A& g, size_t n) {
  auto par = std::execution::par_unseq; auto seq = std::execution::seq;
  size_t t = vf::some_threads(c); vf::Quiet quiet;
  auto call = [&](Results& r, const char* f, auto&& go) { c.at(f); vf::schedules([&] { r.add(f, vf::threads(t, [&] { return go(); })); }); };
  std::vector<std::vector<unsigned>> sources{{(unsigned)c.rnd(n)}};
  std::vector<unsigned> some; for (int k = 2 + c.rnd(5); k--;) some.push_back(c.rnd(n)); if (n < 100) sources.push_back(some);
  for (auto& s : sources) for (bool norm : {false, true}) {
    Results r; unsigned bins = 1 + c.rnd(9);
    call(r, "bc2_v3", [&] { return bc2_v3<A, float, double>(g, s, par, par, norm); });
    call(r, "bc2_v3 mixed", [&] { return bc2_v3<A, double, float>(g, s, par, seq, norm); });
    call(r, "bc2_v4", [&] { return bc2_v4<float, double>(g, s, bins, par, par, norm); });
    call(r, "bc2_v4 mixed", [&] { return bc2_v4<double, float>(g, s, bins, seq, par, norm); });
    event(c, s, true, norm, r);
  }
#ifndef VF_SCHED      // (its spin locks, test-and-set, are no scheduling points)
  // several threads on one work list; edges are taken as pairs, so no parallel edges, and the pair (0, 0) is no edge
  for (size_t u = 0; auto&& row : g) { std::set<unsigned> s; for (auto&& e : row) if (!s.insert(std::get<0>(e)).second || std::get<0>(e) == u) return; ++u; }
  std::vector<unsigned> s = some; s.resize(std::min<size_t>(s.size(), 3)); Results r;
  if (n > 100 || c.rnd(3)) return; for (size_t delta : {c.rnd(2) ? 1 : 2, 200}) call(r, "worklist", [&] { return approx_betweenness_worklist<A, double, double>(g, s, t, delta); });
  event(c, s, false, false, r);
#endif
}
template <class A> void sequential(vf::Case& c, const A& g, size_t n) {
  vf::Quiet quiet; bool plain = true;      // without parallel edges
  for (auto&& row : g) { std::set<unsigned> s; for (auto&& e : row) if (!s.insert(std::get<0>(e)).second) plain = false; }
  std::vector<unsigned> src; for (int k = 1 + c.rnd(5); k--;) src.push_back(c.rnd(n)); std::vector<unsigned> all; for (unsigned v = 0; v < n; ++v) all.push_back(v);
  for (auto& s : {src, all}) {
    for (bool norm : {false, true}) {
      { Results r;
        c.at("bc2_v1"); r.add("bc2_v1", bc2_v1(g, s, norm));
        c.at("bc2_v1 double"); r.add("bc2_v1 double", bc2_v1<A, double, double>(g, s, norm));
        if (norm) {
          std::vector<unsigned> x = s;
          c.at("brandes"); r.add("brandes", approx_betweenness_brandes(g, x));
          c.at("brandes double"); r.add("brandes double", approx_betweenness_brandes<A, double>(g, x));
          if (plain) { c.at("worklist"); r.add("worklist", approx_betweenness_worklist_serial(g, x)); }
        }
        event(c, s, false, norm, r); }
      { Results r; c.at("bc2_v0"); r.add("bc2_v0", bc2_v0(g, s, norm)); r.add("bc2_v0 double", bc2_v0<A, double, double>(g, s, norm)); event(c, s, true, norm, r); }
    }
  }
}
#else
template <class A> void parallel(vf::Case& c, const A& g, size_t n) {
  auto par = std::execution::par_unseq; auto seq = std::execution::seq;
  using Par = std::execution::parallel_unsequenced_policy; using Seq = std::execution::sequenced_policy;
  size_t t = vf::some_threads(c);
  auto call = [&](Results& r, const char* f, int threads, auto&& go) { c.at(f); vf::schedules([&] { r.add(f, vf::threads(t, [&] { return go(threads); })); }); };
  std::vector<std::vector<unsigned>> sources{{(unsigned)c.rnd(n)}};
  std::vector<unsigned> some; for (int k = 2 + c.rnd(5); k--;) some.push_back(c.rnd(n)); if (n < 100) sources.push_back(some);
  for (auto& s : sources) for (bool norm : {false, true}) {
    Results r;
    call(r, "parallel double", 1 + c.rnd(9), [&](int k) { return brandes_bc<float, double>(g, s, k, par, par, norm); });
    call(r, "parallel float", 1 + c.rnd(9), [&](int k) { return brandes_bc<float, float>(g, s, k, par, par, norm); });
    call(r, "parallel mixed", 1 + c.rnd(9), [&](int k) { return brandes_bc<float, float>(g, s, k, par, seq, norm); });
    call(r, "sequential policies", 1 + c.rnd(9), [&](int k) { return brandes_bc<float, double>(g, s, k, seq, seq, norm); });
    event(c, s, true, norm, r);
  }
  if (n >= 100) return;
  std::vector<unsigned> all; for (unsigned v = 0; v < n; ++v) all.push_back(v);
  for (bool norm : {false, true}) {
    Results r;
    call(r, "exact", 1 + c.rnd(9), [&](int k) { return exact_brandes_bc<float, float, A>(g, k, Par{}, Par{}, norm); });
    call(r, "exact float", 1 + c.rnd(9), [&](int k) { return exact_brandes_bc<float, double, A, Seq, Par>(g, k, Seq{}, Par{}, norm); });
    event(c, all, true, norm, r);
  }
  vf::Quiet quiet;
  for (bool norm : {false, true}) {
    std::vector<unsigned> s = sources[c.rnd(2)]; c.at("verifier"); auto good = scores(g, s, norm);
    double m = *std::max_element(good.begin(), good.end()); if (!(m > 0)) continue;       // nothing to normalize
    for (int k = 0; k < 3; ++k) {
      auto x = good; if (k) { unsigned v = c.rnd(n); x[v] += k == 1 ? 0.5 : -0.25; }
      bool ok = BCVerifier<double, double>(g, s, x, norm); c.add(Ev("verify").kv("src", s).kv("norm", norm).kv("s", scaled(x)).kv("ok", ok));
    }
  }
}
template <class A> void sequential(vf::Case& c, const A& g, size_t n) {
  std::vector<unsigned> all; for (unsigned v = 0; v < n; ++v) all.push_back(v);
  for (bool norm : {false, true}) {
    Results r;
    c.at("sequential"); r.add("sequential", brandes_bc(g, norm));
    c.at("sequential double"); r.add("sequential double", brandes_bc<A, double, double>(g, norm));
    c.at("sequential counts"); r.add("sequential counts", brandes_bc<A, double, size_t>(g, norm));
    event(c, all, false, norm, r);
  }
}
#endif
template <class A, class F> void drive(const char* name, const std::string& id, F&& f) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    auto a = f(); vf::raw(c, "rows", vf::rows_js(a)); size_t n = num_vertices(a); c.kv("unit", (long)unit);
    if constexpr (requires { a.to_be_indexed_; }) if (n && a.to_be_indexed_.size()) parallel<A>(c, a, n);
    if (n && n < 100) sequential<A>(c, a, n);
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k) {
    using L0 = edge_list<D::directed>; using L1 = edge_list<D::directed, int>; using U0 = edge_list<D::undirected>; using U1 = edge_list<D::undirected, int>;
    switch (k % 5) {
      case 0: drive<adjacency<0>>("a0", id, [&] { auto l = make_list<L0>(g); return adjacency<0>(l); }); break;
      case 1: drive<adjacency<0>>("u0", id, [&] { auto l = make_list<U0>(g); return adjacency<0>(l); }); break;
      case 2: drive<adjacency<1, int>>("a1", id, [&] { auto l = make_list<L1>(g); return adjacency<1, int>(l); }); break;
      case 3: drive<adjacency<1, int>>("u1", id, [&] { auto l = make_list<U1>(g); return adjacency<1, int>(l); }); break;
      case 4: drive<vov<0, int>>("vov", id, [&] { auto l = make_list<L1>(g); return vov<0, int>(l); }); break;
    }
  };
  each_graph(Shape{24, 60, true, true, 9, 1}, one);
  large_graphs(500, 1200, [&](const std::string& id, auto& g, long k) { one(id, g, k % 4); });
}
