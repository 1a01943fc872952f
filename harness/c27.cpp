// Work lists: single traversals with pushes before and while traversing, and several threads on one list.
#include "alg.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/adaptors/worklist.hpp"
#include <atomic>
#include <list>
#include <mutex>
#include <string>
#include <thread>
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using A = adjacency<0>;
// items of different types, all standing for a number
template <class T> T make(long x) { if constexpr (std::is_integral_v<T>) return (T)x; else if constexpr (std::is_same_v<T, std::string>) return std::string(x % 40, 'i') + std::to_string(x); else return T{(int)x, -1.5 * x}; }
template <class T> long num(const T& x) { if constexpr (std::is_integral_v<T>) return (long)x; else if constexpr (std::is_same_v<T, std::string>) { long v = std::stol(x.substr(x.find_first_not_of('i'))); return make<T>(v) == x ? v : vf::JUNK; } else return std::get<1>(x) == -1.5 * std::get<0>(x) ? std::get<0>(x) : vf::JUNK; }
template <class W> constexpr bool levelled = requires(W& w, typename W::iterator i) { w.push_back(*i, (size_t)1); };
template <class W> constexpr bool fifo = !requires(W& w, typename W::iterator i) { w.set_dummy(*i); };
template <class W, class T> void put(W& w, long x, long l) { if constexpr (levelled<W>) w.push_back(make<T>(x), (size_t)l); else w.push_back(make<T>(x)); }
std::vector<long> levels(vf::Case& c) {
  static const std::vector<long> k[] = {{0, 1, 2, 3}, {0, 5, 9998, 9999}, {3, 9999, 10000, 10001}, {1, 10005, 20011, 20012}, {0, 100, 101, 16390}};
  return k[c.rnd(5)];
}
template <class W, class T> void history(vf::Case& c, const std::vector<long>& ops) {
  A a(3); W w(a); std::map<long, long> level; long next = c.rnd(2); auto ls = levels(c);
  if constexpr (!fifo<W>) w.set_dummy(make<T>(c.rnd(2) ? 0 : 1 + c.rnd(5)));
  auto push = [&](long op) { long l = levelled<W> ? ls[op % ls.size()] : 0; long x = next++; if (!levelled<W> && c.rnd(12) == 0 && x > 1) x = 1; level[x] = l; c.add(Ev("push").kv("x", x).kv("l", l)); put<W, T>(w, x, l); };
  size_t j = 0, guard = 0;
  do {
    while (j < ops.size() && ops[j] > 0) push(ops[j++] - 1);
    c.add(Ev("empty").kv("r", w.empty()));
    c.at("traverse");
    auto body = [&](long x) {
      c.add(Ev("serve").kv("x", x).kv("l", level.count(x) ? level[x] : vf::JUNK));
      if (j < ops.size() && ops[j] == 0) ++j;
      while (j < ops.size() && ops[j] > 0) push(ops[j++] - 1);
    };
    switch (c.rnd(3)) {
      case 0: for (auto&& x : w) { body(num<T>(x)); if (++guard > 1000) break; } break;
      case 1: { auto it = w.begin(); for (; it != w.end(); ++it) { long x = num<T>(*it); if (num<T>(*it) != x) c.add(Ev("serve").kv("x", x).kv("l", vf::JUNK)); body(x); if (++guard > 1000) break; } break; }
      case 2: { auto it = w.begin(); auto e = w.end(); while (!(it == e)) { body(num<T>(*it)); ++it; if (++guard > 1000) break; } break; }
    }
    c.add(Ev("end").kv("empty", w.empty()));
    if (j < ops.size() && ops[j] == 0) ++j;
  } while (j < ops.size());
}
template <class W, class T> void shared(vf::Case& c, int most) {
  A a(3); int t = vf::some_threads(c); if (t < 2) t = 2; unsigned n = 1 + c.rnd(most), depth = c.rnd(4); unsigned long seed = c.rng(); auto ls = levels(c); for (auto& l : ls) l %= 10000;
  c.at("shared");
  vf::schedules([&] {
    W w(a); w.set_dummy(make<T>(0)); std::vector<std::vector<long>> served(t), pushed(t + 1); std::atomic<long> next{1};
    vf::Rng r0(seed); for (unsigned k = 0; k < n; ++k) { long x = next++; pushed[t].push_back(x); put<W, T>(w, x, ls[vf::rn(r0, ls.size())]); }
    long limit = n * (1 + depth);
    {
#ifdef VF_SCHED
      vf::Schedule schedule(t);
#endif
      std::atomic<int> ready{t}; std::vector<std::thread> th;
      for (int k = 0; k < t; ++k) th.emplace_back([&, k] {
        --ready; while (ready > 0) std::this_thread::yield();
        vf::Rng r(seed * 7 + k);
        for (auto it = w.begin(); it != w.end(); ++it) {
          served[k].push_back(num<T>(*it));
          for (unsigned m = vf::rn(r, 3); m > 0 && next < limit; --m) { long x = next++; pushed[k].push_back(x); put<W, T>(w, x, ls[vf::rn(r, ls.size())]); }
          if (served[k].size() > 100000) break;
        }
      });
      for (auto& x : th) x.join();
    }
    std::vector<long> s, p; for (auto& x : served) s.insert(s.end(), x.begin(), x.end()); for (auto& x : pushed) p.insert(p.end(), x.begin(), x.end());
    std::sort(s.begin(), s.end()); std::sort(p.begin(), p.end());
    c.add(Ev("shared").kv("served", s).kv("pushed", p).kv("empty", w.empty()));
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto on = [&](const std::string& id, auto&& f) { vf::run_case(id, [&](vf::Case& c) { f(c); }); };
  using P = std::tuple<int, double>; using V = A::vertex_id_type;
  auto one = [&](const std::string& id, const std::vector<long>& ops, long k) {
    switch (k % 12) {
      case 0: on("fifo/" + id, [&](vf::Case& c) { history<worklist_range<A>, V>(c, ops); }); break;
      case 4: on("fifo-string/" + id, [&](vf::Case& c) { history<worklist_range<A, std::string>, std::string>(c, ops); }); break;
      case 8: on("fifo-list/" + id, [&](vf::Case& c) { history<worklist_range<A, P>, P>(c, ops); }); break;
      case 1: case 5: case 9: on("tbb/" + id, [&](vf::Case& c) { history<tbbworklist_range<A>, V>(c, ops); }); break;
      case 2: case 6: on("tbb-string/" + id, [&](vf::Case& c) { history<tbbworklist_range<A, std::string>, std::string>(c, ops); }); break;
      case 10: on("tbb-tuple/" + id, [&](vf::Case& c) { history<tbbworklist_range<A, P>, P>(c, ops); }); break;
      case 3: case 7: on("levels/" + id, [&](vf::Case& c) { history<tbbworklist_range2<A>, V>(c, ops); }); break;
      case 11: on("levels-string/" + id, [&](vf::Case& c) { history<tbbworklist_range2<A, std::string>, std::string>(c, ops); }); break;
    }
  };
  long idx = 0;
#ifndef VF_SCHED
  if (!opt.cases.empty()) for (auto& b : read_groups(opt.cases)) { std::vector<long> ops; for (size_t j = 1; j < b.size(); ++j) ops.push_back(b[j][0]); long k = idx++; one("g" + std::to_string(k), ops, k + k / 12); }
  Rng r(opt.seed);
  for (long j = 0; j < opt.count; ++j) { std::vector<long> ops; unsigned p = 2 + rn(r, 4); for (unsigned k = 0, e = rn(r, 60); k < e; ++k) ops.push_back(rn(r, p) ? 1 + rn(r, 4) : 0); one("r" + std::to_string(j), ops, j); }
#endif
  for (long j = 0; j < opt.count; ++j) {
    std::string id = std::to_string(j);
#ifdef VF_SCHED
    int most = 4;
#else
    int most = j % 9 ? 30 : 1500;
#endif
    switch (j % 6) {
      case 0: case 1: case 4: on("shared/" + id, [&](vf::Case& c) { shared<tbbworklist_range<A>, V>(c, most); }); break;
      case 2: on("shared-string/" + id, [&](vf::Case& c) { shared<tbbworklist_range<A, std::string>, std::string>(c, most); }); break;
      case 3: case 5: on("shared-levels/" + id, [&](vf::Case& c) { shared<tbbworklist_range2<A, long>, long>(c, most > 100 ? 100 : most); }); break;
    }
  }
}
