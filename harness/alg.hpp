// Running algorithms on generated graphs.
#pragma once
#include "gr.hpp"
#include <tbb/global_control.h>
#include <unordered_set>
#include <iostream>
namespace vf {
using D = nw::graph::directedness;
inline long extra(const char* k, long d = 0) { auto i = opt.ex.find(k); return i == opt.ex.end() ? d : std::atol(i->second.c_str()); }
#ifdef VF_SCHED
// runs f under a schedule of the controlled scheduler with t workers
struct Schedule {
  Schedule(size_t t) { static std::string of; static unsigned long k; if (of != cur_id) { of = cur_id; k = 0; } vs::begin(hash_str(cur_id) + 7919 * opt.seed + ++k, (int)t); }
  ~Schedule() { vs::end(); }
};
template <class F> decltype(auto) threads(size_t t, F&& f) { Schedule s(t); return f(); }
inline size_t some_threads(Case& c) { static const size_t t[] = {2, 2, 3, 3, 4, 6}; return t[c.rnd(6)]; }
#else
// runs f with at most t threads
template <class F> decltype(auto) threads(size_t t, F&& f) { tbb::global_control g(tbb::global_control::max_allowed_parallelism, t); return f(); }
inline size_t some_threads(Case& c) { static const size_t t[] = {1, 2, 3, 4, 8, 8, 6, 5}; return t[c.rnd(8)]; }
#endif
#ifdef VF_SCHED
template <class F> void schedules(F&& f) { for (long n = extra("schedules", 1); n > 0; --n) f(); }
#else
template <class F> void schedules(F&& f) { f(); }
#endif
// the different results of one function
struct Distinct { std::set<std::string> seen; std::string s = "["; void put(const Ev& e) { auto x = e.str(); if (seen.insert(x).second) { if (s.size() > 1) s += ','; s += x; } } };
// each undirected edge once, no loops
inline G simple(const G& g) {
  G r; r.n = g.n; r.cls = g.cls; std::set<std::pair<unsigned, unsigned>> s;
  for (auto& x : g.e) if (x.u != x.v && s.insert({std::min(x.u, x.v), std::max(x.u, x.v)}).second) r.e.push_back(x);
  return r;
}
template <class A> void sort_rows(A& a) { for (auto&& r : a) std::sort(r.begin(), r.end(), [](auto&& x, auto&& y) { return std::get<0>(x) < std::get<0>(y); }); }
// graphs of some size, one component or several, without long paths
inline G large_graph(Rng& r, unsigned n, unsigned m, int maxw = 9) {
  G g; g.n = n; g.cls = "large"; unsigned parts = rn(r, 3) ? 1 : 2 + rn(r, 4), hub = rn(r, n);
  for (unsigned i = 0; i < m; ++i) { unsigned u = rn(r, 12) ? rn(r, n) : hub, v = rn(r, n); if (u % parts == v % parts) { if (rn(r, 2)) std::swap(u, v); g.e.push_back({u, v, 1 + (int)rn(r, maxw)}); } }
  return g;
}
// silences std::cout; nothing is shared between threads that print
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Quiet { NullBuf b; std::streambuf* old = std::cout.rdbuf(&b); ~Quiet() { std::cout.rdbuf(old); } };
// stars and paths: a vertex with several hundred (or exactly 256) neighbors, before or after all of them, and a diameter of several hundred
template <class F> void extreme_graphs(F&& f, int maxw = 9) {
  Rng r(opt.seed + 79);
  for (int j = 0; j < 6 * std::min<long>(2, extra("big")); ++j) {
    G g; g.n = j % 6 < 3 ? 257 : 270 + rn(r, 60); g.cls = j % 3 == 2 ? "path" : "star"; auto w = [&] { return 1 + (int)rn(r, maxw); };
    if (j % 3 == 2) { bool down = rn(r, 2); for (unsigned i = 0; i + 1 < g.n; ++i) if (down) g.e.push_back({g.n - 1 - i, g.n - 2 - i, w()}); else g.e.push_back({i, i + 1, w()}); }
    else { unsigned h = j % 3 ? g.n - 1 : 0; for (unsigned i = 0; i < g.n; ++i) if (i != h) { if (rn(r, 2)) g.e.push_back({h, i, w()}); else g.e.push_back({i, h, w()}); } }
    if (j % 6 >= 3) for (unsigned i = 0; i < g.n / 4; ++i) g.e.push_back({rn(r, g.n), rn(r, g.n), w()});
    f(std::string(g.cls) + std::to_string(j), g, rn(r, 120));
  }
}
template <class F> void large_graphs(unsigned n, unsigned m, F&& f, int maxw = 9) {
  Rng r(opt.seed + 77); for (long j = 0; j < extra("big"); ++j) { G g = large_graph(r, n / 2 + rn(r, n / 2), m / 2 + rn(r, m / 2), maxw); f("large" + std::to_string(j), g, j); }
  extreme_graphs(f, maxw);
}
}    // namespace vf
