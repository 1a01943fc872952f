// The atomic bit vector and the atomic wrappers.
#include "alg.hpp"
#include <tbb/concurrent_vector.h>
#include <atomic>
#include <memory>
#include <thread>
#include "nwgraph/util/atomic.hpp"
#include "nwgraph/util/AtomicBitVector.hpp"
#include "nwgraph/util/parallel_for.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
template <class W> long bit_of(W w) { auto u = (std::make_unsigned_t<W>)w; if (!u) return -1; int b = __builtin_ctzll((unsigned long long)u); return (u >> b) == 1 ? b : vf::JUNK; }
// ------------------------------------------------------------ one thread
template <class W> void vectors(vf::Case& c, const std::vector<std::pair<int, int>>& ops, int names) {
  constexpr int B = sizeof(W) * 8; using V = AtomicBitVector<W>;
  static const int lens[] = {1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 3 * B + 2, 5 * B, 9 * B + 3};
  size_t n = c.rnd(3) ? lens[c.rnd(9)] : 1 + c.rnd(700);
  std::vector<size_t> pos; for (int j = 0; j < names; ++j) { size_t p[] = {0, n - 1, (size_t)B - 1, (size_t)B, n / 2, c.rnd(n), c.rnd(n), c.rnd(n)}; pos.push_back(std::min(p[c.rnd(8)], n - 1)); }
  std::unique_ptr<V> v; if (c.rnd(3)) v = std::make_unique<V>(n); else { v = std::make_unique<V>(n, false); v->clear(); }
  c.kv("kind", "vector");
  auto all = [&](const V& x) { std::vector<long> l; for (size_t i = 0; i < n; ++i) l.push_back(bit_of(i % 2 ? x.get(i) : x.atomic_get(i))); c.add(Ev("content").kv("w", B).kv("n", n).kv("l", l)); };
  all(*v);
  for (auto [k, j] : ops) {
    size_t i = pos[j];
    switch (k) {
      case 1: c.at("set"); c.add(Ev("set").kv("w", B).kv("i", i).kv("r", bit_of(c.rnd(2) ? v->set(i) : v->atomic_set(i)))); break;
      case 2: c.at("get"); c.add(Ev("get").kv("w", B).kv("i", i).kv("r", bit_of(c.rnd(2) ? v->get(i) : v->atomic_get(i)))); break;
      case 3: c.at("clear"); v->clear(); c.add(Ev("clear")); break;
      case 4: { c.at("move"); auto u = std::make_unique<V>(std::move(*v)); v = std::move(u); c.add(Ev("move")); break; }
      case 5: { c.at("assign"); V u(0); u = std::move(*v); *v = std::move(u); c.add(Ev("move")); break; }
      case 6: {
        c.at("iterate"); std::vector<size_t> l; if (c.rnd(2)) for (auto x : *v) l.push_back(x); else { auto it = v->begin(); auto e = v->end(); while (!(it == e)) { auto o = it++; l.push_back(*o); } }
        c.add(Ev("iter").kv("l", l)); break;
      }
      case 7: {
        size_t cut = 1 + c.rnd(3); c.at("pieces"); std::vector<std::vector<size_t>> l;
        std::function<void(typename V::non_zero_range, int)> go = [&](typename V::non_zero_range r, int depth) {
          if (r.is_divisible() && (depth < 1 || c.rnd(3))) { auto right = r; typename V::non_zero_range left(right, tbb::split{}); go(left, depth + 1); go(right, depth + 1); return; }
          std::vector<size_t> x; for (auto it = r.begin(), e = r.end(); it != e; ++it) x.push_back(*it); l.push_back(x);
        };
        go(v->non_zeros(cut), 0); c.add(Ev("pieces").kv("l", l));
        c.at("visit"); tbb::concurrent_vector<size_t> seen; vf::threads(vf::some_threads(c), [&] { nw::graph::parallel_for(v->non_zeros(cut), [&](auto x) { seen.push_back(x); }); });
        std::vector<size_t> s(seen.begin(), seen.end()); std::sort(s.begin(), s.end()); c.add(Ev("visit").kv("l", s)); break;
      }
    }
  }
  all(*v);
  std::vector<size_t> l; for (auto x : *v) l.push_back(x); c.add(Ev("iter").kv("l", l));
}
struct Rec { int th = 0; const char* op = ""; long a = 0, x = 0, y = 0, r = 0, b = 0, e = 0; };
std::string rec_js(const Rec& r) { Ev e("op"); e.kv("th", r.th).kv("op", r.op).kv("a", r.a).kv("x", r.x).kv("y", r.y).kv("r", r.r).kv("b", r.b).kv("e", r.e); return e.str(); }
template <class C> std::string recs_js(const C& h) { std::string s = "["; for (auto& r : h) { if (s.size() > 1) s += ','; s += rec_js(r); } return s + "]"; }
template <class T> using Plain = remove_atomic_t<T>;
// performs one operation on the variable through the wrappers
template <class T> void perform(T& v, Rec& r, unsigned how) {
  using P = Plain<T>;
  std::string_view op = r.op;
  if (op == "load") r.r = (long)(how % 3 == 0 ? acquire(v) : how % 3 == 1 ? relaxed(v) : load<std::memory_order_seq_cst>(v));
  else if (op == "store") { if (how % 3 == 0) release(v, (P)r.a); else if (how % 3 == 1) relaxed(v, (P)r.a); else store<std::memory_order_seq_cst>(v, (P)r.a); }
  else if (op == "cas") { P x = (P)r.x; r.r = cas(v, x, (P)r.a); r.y = (long)x; }
  else if (op == "add") r.r = (long)(how % 2 ? fetch_add(v, (P)r.a) : fetch_add<std::memory_order_seq_cst>(v, (P)r.a));
  else if constexpr (std::is_integral_v<P>) r.r = (long)fetch_or(v, (P)r.a);
}
template <class T> Rec random_op(vf::Rng& r) {
  static const char* k[] = {"load", "store", "cas", "add", "add", "cas", "or"}; Rec o; o.op = k[vf::rn(r, std::is_integral_v<Plain<T>> ? 7 : 6)];
  if (!std::strcmp(o.op, "add")) o.a = std::is_unsigned_v<Plain<T>> ? 1 + vf::rn(r, 3) : (long)vf::rn(r, 7) - 2; else o.a = vf::rn(r, 4);
  o.x = vf::rn(r, 4); return o;
}
template <class T> void variable(vf::Case& c) {
  c.kv("kind", "variable"); T v{}; v = 0;
  for (int k = 0; k < 40; ++k) { Rec o = random_op<T>(c.rng); if (!std::strcmp(o.op, "or") && acquire(v) < 0) continue; c.at(o.op); perform(v, o, c.rnd(6)); c.ev.push_back(rec_js(o)); }
}
// ------------------------------------------------------------ several threads
struct Start { std::atomic<int> n; Start(int k) : n(k) {} void wait() { --n; while (n > 0) std::this_thread::yield(); } };
std::atomic<long> now{0};
template <class F> void together(int t, F&& f) {
#ifdef VF_SCHED
  vf::Schedule schedule(t);
#endif
  Start s(t); std::vector<std::thread> th; for (int k = 0; k < t; ++k) th.emplace_back([&, k] { s.wait(); f(k); }); for (auto& x : th) x.join(); }
void idle(vf::Rng& r) { for (volatile unsigned k = vf::rn(r, 30); k > 0; --k); }
template <class T> void history(vf::Case& c) {
  c.kv("kind", "variable");
  for (int round = 0; round < 6; ++round) {
    T v{}; v = 0; int t = 2 + c.rnd(3), len = t == 2 ? 4 : t == 3 ? 3 : 2; std::vector<std::vector<Rec>> h(t); unsigned long seed = c.rng(); now = 0;
    for (int k = 0; k < t; ++k) { vf::Rng r(seed + k); for (int j = 0; j < len; ++j) { h[k].push_back(random_op<T>(r)); h[k].back().th = k; if (!std::is_unsigned_v<Plain<T>> && h[k].back().a < 0) h[k].back().a = 5; } }
    c.at("history"); together(t, [&](int k) { vf::Rng r(seed * 7 + k); for (auto& o : h[k]) { idle(r); o.b = now++; perform(v, o, vf::rn(r, 6)); o.e = now++; } });
    std::vector<Rec> all; for (auto& x : h) all.insert(all.end(), x.begin(), x.end());
    c.add(Ev("hist").kv("v", 0).kv("final", (long)acquire(v)).raw("h", recs_js(all)));
  }
}
template <class T> void chain(vf::Case& c, bool by_cas) {
  c.kv("kind", "variable"); T v{}; v = 0; int t = 4 + c.rnd(5), len = 150; std::vector<std::vector<Rec>> h(t);
  c.at("chain"); together(t, [&](int k) {
    for (int j = 0; j < len; ++j) { Rec o; o.op = "add"; o.a = by_cas ? 1 : 1 + (j + k) % 3; if (by_cas) { Plain<T> x = relaxed(v); while (!cas(v, x, (Plain<T>)(x + 1))); o.r = (long)x; } else perform(v, o, j); h[k].push_back(o); }
  });
  std::vector<Rec> all; for (auto& x : h) all.insert(all.end(), x.begin(), x.end());
  c.add(Ev("chain").kv("v", 0).kv("final", (long)acquire(v)).raw("h", recs_js(all)));
}
template <class W> void bits(vf::Case& c) {
  c.kv("kind", "variable");
  for (int round = 0; round < 4; ++round) {
    constexpr int B = sizeof(W) * 8; size_t n = B + 3; AtomicBitVector<W> v(n); std::vector<size_t> pos{0, 1, (size_t)B - 1, (size_t)B, n - 1};
    int t = 3 + c.rnd(4); unsigned long seed = c.rng(); now = 0; std::vector<std::vector<std::pair<int, Rec>>> h(t);
    c.at("bits"); together(t, [&](int k) { vf::Rng r(seed + k); for (int j = 0; j < 8; ++j) { int p = vf::rn(r, 5); Rec o; bool s = vf::rn(r, 2); o.op = s ? "set" : "get"; o.th = k; idle(r); o.b = now++; o.r = (s ? v.atomic_set(pos[p]) : v.atomic_get(pos[p])) != 0; o.e = now++; h[k].push_back({p, o}); } });
    std::vector<std::vector<Rec>> by(pos.size()); for (auto& x : h) for (auto& [p, o] : x) by[p].push_back(o);
    std::string s = "["; std::vector<int> fin; for (size_t p = 0; p < pos.size(); ++p) { if (p) s += ','; s += recs_js(by[p]); fin.push_back(v.get(pos[p]) != 0); }
    c.add(Ev("bits").raw("h", s + "]").kv("final", fin));
  }
}
template <class W> void stress(vf::Case& c) {
  c.kv("kind", "variable");
  for (int round = 0; round < 4; ++round) {
    size_t n = 1 + c.rnd(150); AtomicBitVector<W> v(n); int t = 4 + c.rnd(5); unsigned long seed = c.rng(); std::vector<std::atomic<long>> sets(n), firsts(n); std::atomic<long> late{0}; unsigned skip = 1 + c.rnd(4);
    c.at("stress"); together(t, [&](int k) {
      vf::Rng r(seed + (k % 2 ? 0 : k)); std::vector<size_t> o; for (size_t i = 0; i < n; ++i) if (i % 5 != 4 || vf::rn(r, skip)) o.push_back(i); if (k % 3) std::shuffle(o.begin(), o.end(), r);
      for (size_t i : o) { if (!v.atomic_set(i)) ++firsts[i]; if (!v.atomic_get(i)) ++late; ++sets[i]; }
    });
    std::vector<std::array<long, 3>> b; for (size_t i = 0; i < n; ++i) b.push_back({sets[i], firsts[i], v.get(i) != 0});
    c.add(Ev("stress").kv("b", b).kv("late", late.load()));
    // the same through fetch_or on a plain word
    W w = 0; constexpr int B = sizeof(W) * 8; std::vector<std::atomic<long>> s2(B), f2(B); std::atomic<long> l2{0};
    together(t, [&](int k) { for (int j = 0; j < B; ++j) { W m = W(1) << ((j + (k % 2)) % B); int i = (j + (k % 2)) % B; if (!(fetch_or(w, m) & m)) ++f2[i]; if (!(acquire(w) & m)) ++l2; ++s2[i]; } });
    std::vector<std::array<long, 3>> b2; for (int i = 0; i < B; ++i) b2.push_back({s2[i], f2[i], (w >> i & 1) != 0});
    c.add(Ev("stress").kv("b", b2).kv("late", l2.load()));
  }
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto on = [&](const std::string& id, auto&& f) { vf::run_case(id, [&](vf::Case& c) { f(c); }); };
  auto one = [&](const std::string& id, int names, const std::vector<std::pair<int, int>>& ops, long k) {
    switch (k % 4) {
      case 0: on("u64/" + id, [&](vf::Case& c) { vectors<std::uint64_t>(c, ops, names); }); break;
      case 1: on("u8/" + id, [&](vf::Case& c) { vectors<std::uint8_t>(c, ops, names); }); break;
      case 2: on("u32/" + id, [&](vf::Case& c) { vectors<std::uint32_t>(c, ops, names); }); break;
      case 3: on("u16/" + id, [&](vf::Case& c) { vectors<std::uint16_t>(c, ops, names); }); break;
    }
  };
  long idx = 0;
  if (!opt.cases.empty()) for (auto& b : read_groups(opt.cases)) { std::vector<std::pair<int, int>> ops; for (size_t j = 1; j < b.size(); ++j) ops.push_back({(int)b[j][0], (int)b[j][1]}); long k = idx++; one("g" + std::to_string(k), b[0][0], ops, k); }
  Rng r(opt.seed);
  for (long j = 0; j < extra("histories"); ++j) {
    std::vector<std::pair<int, int>> ops; int names = 1 + rn(r, 60); for (unsigned k = 0, e = rn(r, 60); k < e; ++k) { unsigned x = rn(r, 20); ops.push_back({x < 11 ? 1 : x < 15 ? 2 : x == 15 ? 3 : x == 16 ? 4 : x == 17 ? 5 : x == 18 ? 6 : 7, (int)rn(r, names)}); }
    one("r" + std::to_string(j), names, ops, j);
  }
  for (long j = 0; j < opt.count; ++j) {
    std::string id = std::to_string(j);
#define EACH(name, call) switch (j % 8) { case 0: on(name "-u32/" + id, [&](vf::Case& c) { call(std::uint32_t); }); break; case 1: on(name "-long/" + id, [&](vf::Case& c) { call(long); }); break; case 2: on(name "-double/" + id, [&](vf::Case& c) { call(double); }); break; case 3: on(name "-float/" + id, [&](vf::Case& c) { call(float); }); break; \
    case 4: on(name "-aint/" + id, [&](vf::Case& c) { call(std::atomic<int>); }); break; case 5: on(name "-adouble/" + id, [&](vf::Case& c) { call(std::atomic<double>); }); break; case 6: on(name "-afloat/" + id, [&](vf::Case& c) { call(std::atomic<float>); }); break; case 7: on(name "-au64/" + id, [&](vf::Case& c) { call(std::atomic<std::uint64_t>); }); break; }
#define VARIABLE(T) variable<T>(c)
#define HISTORY(T) history<T>(c)
#define CHAIN(T) chain<T>(c, j / 8 % 2)
    EACH("variable", VARIABLE) EACH("history", HISTORY)
    if (j < opt.count / 2) { EACH("chain", CHAIN) }
    switch (j % 4) {
      case 0: on("bits-u64/" + id, [&](vf::Case& c) { bits<std::uint64_t>(c); stress<std::uint64_t>(c); }); break;
      case 1: on("bits-u8/" + id, [&](vf::Case& c) { bits<std::uint8_t>(c); stress<std::uint8_t>(c); }); break;
      case 2: on("bits-u32/" + id, [&](vf::Case& c) { bits<std::uint32_t>(c); stress<std::uint32_t>(c); }); break;
      case 3: on("bits-u16/" + id, [&](vf::Case& c) { bits<std::uint16_t>(c); stress<std::uint16_t>(c); }); break;
    }
  }
}
