// Common part of all conformance drivers: they run the real code on generated
// inputs and record what it did as newline-delimited JSON, one case per line.
#pragma once
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#ifdef VF_SCHED
#include "vsched.hpp"
#endif
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef PART
#define PART -1
#endif
#define IN_PART(k) (PART < 0 || PART == (k))

namespace vf {

constexpr long JUNK = 1999999999;   // stands for any number the specifications cannot hold

// ---------------------------------------------------------------- JSON
inline void js(std::string& o, const std::string& s) {
  o += '"';
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?'; else o += c; }
  o += '"';
}
inline void js(std::string& o, const char* s) { js(o, std::string(s)); }
inline void js(std::string& o, bool b) { o += b ? "true" : "false"; }
template <class T> requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
void js(std::string& o, T v) {
  if constexpr (std::is_unsigned_v<T> && sizeof(T) >= 4) {
    if (v == std::numeric_limits<T>::max()) { o += "-1"; return; }
    if (v > 1000000000u) { o += std::to_string(JUNK); return; }
  } else {
    if ((long)v > 1000000000 || (long)v < -1000000000) { o += std::to_string(JUNK); return; }
  }
  o += std::to_string((long)v);
}
template <class T> requires(std::is_floating_point_v<T>)
void js(std::string& o, T v) {   // only whole numbers are representable
  if (!(v >= -1e9 && v <= 1e9) || v != (T)(long)v) { o += std::to_string(JUNK); return; }
  o += std::to_string((long)v);
}
template <class T, class A> void js(std::string& o, const std::vector<T, A>& v);
template <class T, size_t N> void js(std::string& o, const std::array<T, N>& v);
template <class... Ts> void js(std::string& o, const std::tuple<Ts...>& t);
template <class A, class B> void js(std::string& o, const std::pair<A, B>& t) { o += '['; js(o, t.first); o += ','; js(o, t.second); o += ']'; }
template <class T, class A> void js(std::string& o, const std::vector<T, A>& v) {
  o += '[';
  for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; if constexpr (std::is_same_v<T, bool>) js(o, (bool)v[i]); else js(o, v[i]); }
  o += ']';
}
template <class T, size_t N> void js(std::string& o, const std::array<T, N>& v) { o += '['; for (size_t i = 0; i < N; ++i) { if (i) o += ','; js(o, v[i]); } o += ']'; }
template <class... Ts> void js(std::string& o, const std::tuple<Ts...>& t) {
  o += '['; bool first = true;
  std::apply([&](auto&... x) { ((o += (first ? "" : ","), first = false, js(o, x)), ...); }, t);
  o += ']';
}

struct Ev {   // one event: an object
  std::string s = "{";
  Ev(const std::string& k) { kv("k", k); }
  template <class T> Ev& kv(const char* k, const T& v) { if (s.size() > 1) s += ','; js(s, k); s += ':'; js(s, v); return *this; }
  Ev& raw(const char* k, const std::string& v) { if (s.size() > 1) s += ','; js(s, k); s += ':'; s += v; return *this; }
  std::string str() const { return s + "}"; }
};

// ---------------------------------------------------------------- driver state
struct Options { unsigned long seed = 1; long count = 100; std::string cases, out, only, status; int alarm_s = 60; bool thorough = false; std::map<std::string, std::string> ex; };
inline Options opt;
inline FILE* outf = nullptr;
inline int   statfd = -1;
inline std::string cur_id;
inline long  n_cases = 0;

inline void set_status(const std::string& s) {
  if (statfd < 0) return;
  std::string b = s; b.resize(200, ' ');
  if (pwrite(statfd, b.data(), b.size(), 0)) {}
}

struct Case {   // one line of the trace
  std::string id, head;
  std::vector<std::string> ev;
  std::mt19937_64 rng;
  unsigned rnd(unsigned n) { return n ? rng() % n : 0; }
  template <class T> Case& kv(const char* k, const T& v) { head += ','; js(head, k); head += ':'; js(head, v); return *this; }
  void add(const Ev& e) { ev.push_back(e.str()); }
  // Every potentially dangerous call is announced, so that a crash names its call.
  void at(const std::string& what) { set_status(id + " " + what); }
};

inline unsigned long hash_str(const std::string& s) { unsigned long h = 1469598103934665603ul; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ul; } return h; }

// Runs one case; f fills it in.
template <class F> void run_case(const std::string& id, F&& f) {
  if (!opt.only.empty() && opt.only != id) return;
  Case c; c.id = id; c.rng.seed(hash_str(id) * 1000003ul + opt.seed);
  cur_id = id; set_status(id);
  alarm(opt.alarm_s);
#ifdef VF_SCHED_CASES      // the whole case under one schedule
  unsigned long h = hash_str(id) + 7919 * opt.seed; vs::begin(h, 2 + h % 3);
#endif
  f(c);
#ifdef VF_SCHED_CASES
  vs::end();
#endif
  alarm(0);
  if (c.ev.empty()) return;
  std::string o = "{\"id\":"; js(o, id); o += c.head; o += ",\"ev\":[";
  for (size_t i = 0; i < c.ev.size(); ++i) { if (i) o += ','; o += c.ev[i]; }
  o += "]}\n";
  fwrite(o.data(), 1, o.size(), outf);
  fflush(outf);
  ++n_cases;
}

inline void on_alarm(int) { const char m[] = "VF-HANG\n"; if (write(2, m, sizeof(m) - 1)) {} _exit(97); }

// ---------------------------------------------------------------- input graphs
struct Edge { unsigned u, v; int w; };
struct G { unsigned n = 0; std::vector<Edge> e; std::string cls; std::vector<int> ops; };

// behaviours/graphs generated from the specification: one per line, integers; ';' separates groups
inline std::vector<std::vector<std::vector<long>>> read_groups(const std::string& file) {
  std::vector<std::vector<std::vector<long>>> r;
  std::ifstream in(file); std::string line;
  while (std::getline(in, line)) {
    std::vector<std::vector<long>> b; std::stringstream ss(line); std::string g;
    while (std::getline(ss, g, ';')) { std::vector<long> x; std::stringstream gs(g); long y; while (gs >> y) x.push_back(y); b.push_back(x); }
    r.push_back(b);
  }
  return r;
}

using Rng = std::mt19937_64;
inline unsigned rn(Rng& r, unsigned n) { return n ? r() % n : 0; }

// Random multigraph: classes chosen so that shapes that matter (isolated vertices at the ends,
// stars, paths, components, parallel edges, self-loops) all occur.
inline G random_graph(Rng& r, unsigned maxn, unsigned maxm, bool loops, bool multi, int maxw = 9, unsigned minn = 0) {
  G g; unsigned shape = rn(r, 10);
  g.n = minn + rn(r, maxn - minn + 1);
  std::set<std::pair<unsigned, unsigned>> seen;
  auto add = [&](unsigned u, unsigned v) {
    if (!loops && u == v) return;
    if (!multi && !seen.insert({u, v}).second) return;
    g.e.push_back({u, v, 1 + (int)rn(r, maxw)});
  };
  if (g.n == 0) { g.cls = "empty"; return g; }
  unsigned m = rn(r, maxm + 1);
  unsigned lo = 0, hi = g.n;   // window of vertices that may have edges
  if (rn(r, 3) == 0 && g.n > 3) { lo = rn(r, g.n / 2); hi = g.n - rn(r, g.n / 2); if (hi <= lo) hi = lo + 1; }
  unsigned k = hi - lo;
  switch (shape) {
    case 0: g.cls = "path"; for (unsigned i = 0; i + 1 < k; ++i) add(lo + i, lo + i + 1); for (unsigned i = 0; i < m / 4; ++i) add(lo + rn(r, k), lo + rn(r, k)); break;
    case 1: g.cls = "rpath"; for (unsigned i = k; i > 1; --i) add(lo + i - 1, lo + i - 2); for (unsigned i = 0; i < m / 4; ++i) add(lo + rn(r, k), lo + rn(r, k)); break;
    case 2: { g.cls = "star"; unsigned c = lo + rn(r, k); for (unsigned i = 0; i < k; ++i) if (lo + i != c) { if (rn(r, 2)) add(c, lo + i); else add(lo + i, c); } break; }
    case 3: { g.cls = "comps"; unsigned b = 1 + rn(r, 4); for (unsigned i = 0; i < m; ++i) { unsigned u = lo + rn(r, k); unsigned v = lo + rn(r, k); if (u % b == v % b) add(u, v); } break; }
    case 4: g.cls = "cycle"; for (unsigned i = 0; i < k; ++i) add(lo + i, lo + (i + 1) % k); for (unsigned i = 0; i < m / 4; ++i) add(lo + rn(r, k), lo + rn(r, k)); break;
    case 5: { g.cls = "ptree"; std::vector<unsigned> p(k); for (unsigned i = 0; i < k; ++i) p[i] = lo + i; std::shuffle(p.begin(), p.end(), r); for (unsigned i = 1; i < k; ++i) { unsigned j = rn(r, i); if (rn(r, 2)) add(p[i], p[j]); else add(p[j], p[i]); } break; }
    case 6: { g.cls = "dense"; for (unsigned u = 0; u < k; ++u) for (unsigned v = 0; v < k; ++v) if (g.e.size() < maxm && rn(r, 3)) add(lo + u, lo + v); break; }
    default: g.cls = "gnm"; for (unsigned i = 0; i < m; ++i) add(lo + rn(r, k), lo + rn(r, k)); break;
  }
  if (g.e.size() > maxm) { std::shuffle(g.e.begin(), g.e.end(), r); g.e.resize(maxm); }
  if (rn(r, 2)) std::shuffle(g.e.begin(), g.e.end(), r);
  return g;
}

template <class C> void put_graph(C& c, const G& g) {
  std::vector<std::array<long, 3>> e; for (auto& x : g.e) e.push_back({(long)x.u, (long)x.v, (long)x.w});
  c.kv("n", (long)g.n).kv("e", e);
}

// ---------------------------------------------------------------- main
void run();   // provided by each driver

inline int vf_main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto p = a.find('='); std::string k = a.substr(0, p), v = p == std::string::npos ? "" : a.substr(p + 1);
    if (k == "seed") opt.seed = std::stoul(v); else if (k == "count") opt.count = std::stol(v); else if (k == "cases") opt.cases = v; else if (k == "out") opt.out = v;
    else if (k == "only") opt.only = v; else if (k == "status") opt.status = v; else if (k == "alarm") opt.alarm_s = std::stoi(v); else if (k == "thorough") opt.thorough = v == "1"; else opt.ex[k] = v;
  }
  outf = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
  if (!opt.status.empty()) statfd = open(opt.status.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  signal(SIGALRM, on_alarm);
  run();
  set_status("DONE");
  fclose(outf);
  fprintf(stderr, "VF-CASES %ld\n", n_cases);
  return 0;
}
}    // namespace vf
#ifndef VF_NO_MAIN
int main(int argc, char** argv) { return vf::vf_main(argc, argv); }
#endif
