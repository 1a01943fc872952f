// Splitting of ranges, and the parallel helpers that rely on it.
#include "traits_std.hpp"
#include "gr.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/util/AtomicBitVector.hpp"
#include "nwgraph/util/parallel_for.hpp"
#include "nwgraph/util/util_par.hpp"
#include <tbb/global_control.h>
#include <tbb/blocked_range.h>
#include <deque>
#include <mutex>
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using D = directedness;
using Rec = std::vector<long>;
struct Rowid { long first; };
// every element becomes a record of integers
template <class X> long num(const X& x) { if constexpr (std::is_arithmetic_v<X>) return (long)x; else { long s = 0; for (auto&& e : x) s = s * 31 % 1000003 + (long)std::get<0>(e) + 1; return s; } }
template <class X> Rec rec(const X& x) {
  if constexpr (std::is_arithmetic_v<X>) return {(long)x};
  else if constexpr (requires { x.begin(); }) return {num(x)};
  else return std::apply([](auto&&... y) { return Rec{num(std::remove_cvref_t<decltype(y)>(y))...}; }, x);
}
template <class R> std::vector<Rec> list(R& r) { std::vector<Rec> v; auto e = r.end(); size_t guard = 0; for (auto it = r.begin(); it != e && ++guard < 100000; ++it) if constexpr (std::is_integral_v<std::remove_cvref_t<decltype(it)>>) v.push_back(rec(it)); else v.push_back(rec(*it)); return v; }
template <class... X> Rec args(X&&... x) { if constexpr (sizeof...(X) == 1) return (rec(std::remove_cvref_t<X>(x)), ...); else return Rec{num(std::remove_cvref_t<X>(x))...}; }

template <class R> void tree(vf::Case& c, const char* what, const R& r0, const std::vector<Rec>& want, const vf::G& g) {
  c.at(what);
  auto add = [&](Ev e) { c.add(e); };
  auto ev = [&](const char* k) { Ev e(k); e.kv("what", what); return e; };
  { R r(r0); add(ev("range").kv("seq", list(r)).kv("want", want).kv("size", (long)r.size()).kv("empty", r.empty())); }
  // the splits of the case, then further random ones
  { std::deque<R> p; p.emplace_back(r0); std::vector<long> picks(g.ops.begin() + std::min<size_t>(1, g.ops.size()), g.ops.end()); for (int k = 0; k < 4; ++k) picks.push_back(1 + c.rnd(p.size() + k));
    for (long pick : picks) {
      size_t i = (pick - 1 + p.size()) % p.size(), tries = 0; while (tries < p.size() && !p[i].is_divisible()) { i = (i + 1) % p.size(); ++tries; }
      if (tries == p.size()) break;
      R b(p[i], tbb::split{}); p.push_back(b); R& a = p[i]; R& z = p.back();
      add(ev("split").kv("i", i + 1).kv("a", list(a)).kv("b", list(z)).kv("sa", (long)a.size()).kv("sb", (long)z.size()).kv("ea", a.empty()).kv("eb", z.empty()));
    } }
  // split as far as possible
  { std::deque<R> p; p.emplace_back(r0); std::vector<Rec> seen; size_t n = 0; while (!p.empty() && n < 20000) { if (p.front().is_divisible()) { R b(p.front(), tbb::split{}); p.push_back(b); ++n; } else { for (auto& x : list(p.front())) seen.push_back(x); p.pop_front(); } }
    add(ev("exhaust").kv("ended", p.empty()).kv("seq", seen)); }
}
template <class R> void helpers(vf::Case& c, const char* what, const R& r0, bool parallel = true) {
  c.at(std::string(what) + ": helpers");
  std::mutex m; std::vector<Rec> v;
  auto op = [&](auto&&... x) { auto r = args(std::forward<decltype(x)>(x)...); std::lock_guard<std::mutex> l(m); v.push_back(r); };
  auto flush = [&](bool seql) { Ev e("each"); e.kv("what", what).kv("seql", seql).kv("seq", v); c.add(e); v.clear(); };
  { R r(r0); parallel_for_sequential(r, op); flush(true); }
  constexpr bool con = requires (const R& r) { r.begin(); };
  { R r(r0); nw::graph::parallel_for(r, op); flush(false); }
  { nw::graph::parallel_for(R(r0), op); flush(false); }
  auto reds = [&](auto&& how) {
    long init = c.rnd(2) ? 0 : (how(0, [](auto&&...) { return 0l; }, std::plus<>{}, 0l), 0);
    long cnt = how(0, [](auto&&...) { return 1l; }, std::plus<>{}, 0l);
    long sum = how(0, [](auto&&... x) { return args(std::forward<decltype(x)>(x)...).back(); }, std::plus<>{}, init);
    long mx = how(0, [](auto&&... x) { return args(std::forward<decltype(x)>(x)...).back(); }, [](long a, long b) { return std::max(a, b); }, -1l);
    Ev e("reduce"); e.kv("what", what).kv("init", init).kv("count", cnt).kv("sum", sum).kv("max", mx); c.add(e);
  };
  if constexpr (con) {
  reds([&](int, auto&& op, auto&& red, long init) { R r(r0); return nw::graph::parallel_reduce(r, op, red, init); });
  reds([&](int, auto&& op, auto&& red, long init) { return nw::graph::parallel_reduce(R(r0), op, red, init); });
  }
  reds([&](int, auto&& op, auto&& red, long init) { R r(r0); return parallel_for_sequential(r, op, red, init); });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  each_graph(Shape{.maxn = 90, .maxm = 150, .bign = 1500, .bigm = 10}, [&](const std::string& id, const G& g0, long k) {
    vf::run_case(id, [&](vf::Case& c) {
      G g = g0; size_t cut = g.ops.empty() ? 1 + c.rnd(9) : g.ops[0];
      tbb::global_control threads(tbb::global_control::max_allowed_parallelism, 1 + k % 8);
      c.kv("n", (long)g.n);
      size_t n = g.n; std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = (i * 7 + 1) % 100003; std::vector<Rec> vr; for (int x : v) vr.push_back({x});
      auto both = [&](const char* what, auto&& r, const std::vector<Rec>& want) { tree(c, what, r, want, g); helpers(c, what, r); };
#if IN_PART(0)
      both("vector", splittable_range_adaptor(v.begin(), v.end(), cut), vr);
      { splittable_range_adaptor r(v); r.cutoff(cut); both("vector", r, vr); }
      both("cyclic", cyclic(v, cut), vr);
      { std::vector<Rec> w; for (size_t i = 0; i < n; ++i) w.push_back({(long)i, v[i]}); both("cyclic neighbor", cyclic_neighbor_range(v, cut), w); }
      { std::vector<Rec> w; for (size_t i = 0; i < n; ++i) w.push_back({(long)i}); both("vertex", vertex_range<adjacency<0>>(n), w); }
      { std::vector<Rec> w; for (size_t i = 0; i < n; ++i) w.push_back({(long)(5 + i)}); both("indices", tbb::blocked_range<size_t>(5, 5 + n, cut), w); }
      c.at("bit vector"); { auto bits = [&]<class W>(W*) {
          AtomicBitVector<W> b(n); std::vector<Rec> w; for (size_t i = 0; i < n; ++i) if ((k + i * i + i / 3) % 3 == 0 || k % 5 == 0) { b.set(i); w.push_back({(long)i}); }
          tree(c, "bits", b.non_zeros(cut), w, g); helpers(c, "bits", b.non_zeros(cut)); };
        if (k % 4 == 0) bits((std::uint64_t*)nullptr); if (k % 4 == 1) bits((std::uint8_t*)nullptr); if (k % 4 == 2) bits((std::uint16_t*)nullptr); if (k % 4 == 3) bits((std::uint32_t*)nullptr); }
      c.at("counting output iterators"); { size_t a = 0; std::atomic<size_t> b{0}; par_counting_output_iterator i(a); atomic_counting_output_iterator j(b);
        splittable_range_adaptor r(v.begin(), v.end(), 2); parallel_for(r, [&](int x) { auto i2 = i; *i2 = x; ++i2; auto j2 = j; *j2 = x; j2++; if (x & 1) { i2[0] = x; j2[x] = x; } });
        long want = n; for (int x : v) want += x & 1; for (long got : {(long)a, (long)b, (long)i.get_count(), (long)j.get_count()}) { Ev e("counting"); e.kv("n", want).kv("got", got); c.add(e); } }
#endif
#if IN_PART(1)
      // a larger graph, as these ranges are divisible from 17 vertices on
      size_t N = n > 16 ? n : 17 + 4 * n; edge_list<D::directed, int> l(N); l.open_for_push_back();
      { size_t m = k % 3 == 0 ? N / 4 : k % 3 == 1 ? N : 2 * N; int w = 0; for (size_t q = 0; q < m; ++q) { size_t u = c.rnd(N); if (k % 4 == 0) u = u / 3; if (k % 4 == 1) u = N - 1 - u / 4; l.push_back(u, c.rnd(N), ++w); } }
      l.close_for_push_back(); adjacency<0, int> a(l); const auto& ca = a;
      std::vector<Rec> rows, ids, es, es0; for (size_t u = 0; u < N; ++u) { rows.push_back({(long)u, num(a[u])}); ids.push_back({(long)u}); for (auto&& [x, w] : a[u]) es.push_back({(long)u, (long)x, (long)w}); }
      size_t off = c.rnd(N + 1); auto from = [&](std::vector<Rec> z, size_t o) { std::erase_if(z, [&](auto& r) { return r[0] < (long)o; }); return z; };
      if (k & 1) { both("neighbor", make_neighbor_range(a), rows); both("plain", make_plain_range(a), ids); }
      else { both("neighbor", make_neighbor_range(ca), rows); both("plain", make_plain_range(ca), ids); }
      both("neighbor", make_neighbor_range(a, off), from(rows, off)); both("plain", make_plain_range(a, off), from(ids, off));
      both("edge", make_edge_range<0>(a), es); both("edge", make_edge_range<0>(a, off), from(es, off));
      both("cyclic neighbor", cyclic_neighbor_range(a, cut), rows);
      { std::vector<Rec> w; for (auto& r : rows) w.push_back({r[1]}); if (N < 60) { std::vector<Rec> d = w; std::sort(d.begin(), d.end()); bool dist = std::adjacent_find(d.begin(), d.end()) == d.end(); if (dist) both("cyclic", cyclic(a, cut), w); } }
      { std::vector<Rec> w; size_t u = 0; for (size_t x = 1; x < N; ++x) if (a[x].size() > a[u].size()) u = x; for (auto&& [x, y] : a[u]) w.push_back({(long)x, (long)y}); auto r = a[u]; r.cutoff(cut); both("neighbors", r, w); }
#endif
    });
  });
}
