// Record containers (structure of arrays, array of structures, zipped columns), algorithms through
// their iterators, proxy sorts and the permutation iterator.
#include "nwgraph/containers/soa.hpp"
#include "nwgraph/containers/aos.hpp"
#include "nwgraph/containers/zip.hpp"
#include "nwgraph/util/proxysort.hpp"
#include "nwgraph/util/permutation_iterator.hpp"
#include <algorithm>
#include <deque>
#include <numeric>
#include <optional>
#include "gr.hpp"
namespace vf::drv {
using namespace nw::graph;
using vf::Ev;
struct Str {   // a number that owns memory
  std::string v;
  Str(int x = 0) : v(x == 0 ? "" : std::to_string(x) + "-padding-that-does-not-fit-inline") {}
  int num() const { return v.empty() ? 0 : std::stoi(v); }
  bool operator==(const Str& o) const { return v == o.v; }
  auto operator<=>(const Str& o) const { return num() <=> o.num(); }
};
void js(std::string& o, const Str& s) { vf::js(o, s.num()); }
const char* names[] = {"push", "pushtuple", "pushat", "assign", "field", "swap", "cycle", "clear", "resize", "reverse", "rotate",
         "stablepart", "removeif", "unique", "uniquekey", "stablesort", "copy", "move", "stdcopy", "fill", "replace",
         "sort", "sortkey", "partition", "nth", "partialsort", "heapsort", "merge", "sortdesc", "parsort"};
template <class... T> struct Soa {
  static constexpr const char* name = "soa"; static constexpr bool soa = true, zip = false;
  struct_of_arrays<T...> c;
  using rec = std::tuple<T...>;
  auto& seq() { return c; }
  void push(const rec& r, bool tup) { if (tup) c.push_back(r); else std::apply([&](auto... x) { c.push_back(x...); }, r); }
  void push_at(size_t i, const rec& r, bool tup) { if (tup) c.push_at(i, r); else std::apply([&](auto... x) { c.push_at(i, x...); }, r); }
  void clear() { c.clear(); }
  void resize(size_t n) { c.resize(n); }
};
template <class... T> struct Aos {
  static constexpr const char* name = "aos"; static constexpr bool soa = false, zip = false;
  array_of_structs<T...> c;
  using rec = std::tuple<T...>;
  auto& seq() { return c; }
  void push(const rec& r, bool tup) { if (tup) c.push_back(r); else std::apply([&](const auto&... x) { c.push_back(x...); }, r); }
  void push_at(size_t i, const rec& r, bool) { c[i] = r; }
  void clear() { c.clear(); }
  void resize(size_t n) { c.resize(n); }
};
template <template <class> class V, class... T> struct ZipOf {
  static constexpr const char* name = "zip"; static constexpr bool soa = false, zip = true;
  std::tuple<V<T>...> v; zipped<V<T>...> c = std::apply([](auto&... x) { return make_zipped(x...); }, v);
  ZipOf() = default; ZipOf(const ZipOf& o) : v(o.v) {} ZipOf(ZipOf&& o) : v(std::move(o.v)) {}
  ZipOf& operator=(const ZipOf& o) { v = o.v; return *this; }
  using rec = std::tuple<T...>;
  auto& seq() { return c; }
  void push(const rec& r, bool) { [&]<size_t... J>(std::index_sequence<J...>) { (std::get<J>(v).push_back(std::get<J>(r)), ...); }(std::index_sequence_for<T...>{}); }
  void push_at(size_t i, const rec& r, bool) { c[i] = r; }
  void clear() { c.clear(); }
  void resize(size_t n) { c.resize(n); }
};
template <class X> using Vec = std::vector<X>;
template <class X> using Deq = std::deque<X>;
template <class... T> using Zip = ZipOf<Vec, T...>;
template <class... T> struct ZipD : ZipOf<Deq, T...> {   // deques cannot reserve, everything else applies
  static constexpr const char* name = "zipd";
};
template <class R> R rec(int key, int serial) {
  R r; std::get<0>(r) = key;
  [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J + 1>(r) = std::tuple_element_t<J + 1, R>(10 * serial + (int)J + 2)), ...); }(std::make_index_sequence<std::tuple_size_v<R> - 1>{});
  return r;
}
template <class C> std::string index_js(C& c) { std::string s = "["; for (size_t i = 0; i < c.size(); ++i) { if (i) s += ','; s += vf::rec_js(std::remove_cvref_t<decltype(c[i])>(c[i])); } return s + "]"; }
template <class A> void observe(A& a, Ev& e) {
  auto& c = a.seq(); const auto& cc = c;
  e.raw("rows", vf::seq_js(c.begin(), c.end())).kv("size", c.size()).raw("crows", vf::seq_js(cc.begin(), cc.end()));
  e.raw("index", c.size() & 1 ? index_js(c) : index_js(cc));
  using R = std::reverse_iterator<decltype(c.begin())>; e.raw("rrows", vf::seq_js(R(c.end()), R(c.begin())));
  if constexpr (requires { typename A::rec; std::get<0>(c); } && (A::soa || A::zip)) {
    std::string s = "["; bool f = true;
    std::apply([&](auto&... v) { ((s += f ? "[" : ",[", f = false, [&] { bool g = true; for (auto& x : v) { if (!g) s += ','; g = false; using vf::js; js(s, x); } }(), s += "]"), ...); }, (typename std::remove_cvref_t<decltype(c)>::storage_type&)c);
    e.raw("cols", s + "]");
  }
}
template <class A> void apply(vf::Case& c, A& a, int k, long x, long y, int key, int serial) {
  using R = typename A::rec; auto& s = a.seq(); long n = s.size(); auto b = s.begin(), e = s.end();
  std::string op = names[k]; long ret = -1;
  switch (k) {
    case 2: case 3: case 4: case 24: if (n == 0) return; x %= n; break;
    case 5: case 6: if (n == 0) return; x %= n; y %= n; break;
    case 10: case 25: case 27: x %= n + 1; break;
  }
  R r = rec<R>(key, c.rnd(4) ? serial : (int)c.rnd(2));
  c.at(op);
  auto k0 = [](const auto& t) { return std::get<0>(t); };
  auto lt = [](const auto& p, const auto& q) { return p < q; };
  auto ltk = [&](const auto& p, const auto& q) { return k0(p) < k0(q); };
  auto eqk = [&](const auto& p, const auto& q) { return k0(p) == k0(q); };
  auto ref = [](R& r) { return r; };
  switch (k) {
    case 0: a.push(r, false); break;
    case 1: a.push(r, true); break;
    case 2: a.push_at(x, r, serial & 1); break;
    case 3: if (serial & 1) *(b + x) = r; else b[x] = r; break;
    case 4: { constexpr size_t w = std::tuple_size_v<R>; [&]<size_t... J>(std::index_sequence<J...>) { ((J == y % w ? (void)(std::get<J>(*(b + x)) = std::get<J>(r)) : void()), ...); }(std::make_index_sequence<w>{}); } break;
    case 5: if (serial & 1) std::iter_swap(b + x, b + y); else { using std::swap; swap(*(b + x), *(b + y)); } break;
    case 6: { R t(*(b + x)); *(b + x) = *(b + y); *(b + y) = t; } break;
    case 7: a.clear(); break;
    case 8: a.resize(x); break;
    case 9: std::reverse(b, e); break;
    case 10: ret = std::rotate(b, b + x, e) - s.begin(); break;
    case 11: ret = std::stable_partition(b, e, [&](auto&& t) { return k0(t) < x; }) - s.begin(); break;
    case 12: { auto q = std::remove_if(b, e, [&](auto&& t) { return k0(t) == x; }); ret = q - s.begin(); a.resize(ret); } break;
    case 13: ret = std::unique(b, e) - s.begin(); a.resize(ret); break;
    case 14: ret = std::unique(b, e, eqk) - s.begin(); a.resize(ret); break;
    case 15: std::stable_sort(b, e, ltk); break;
    case 16: { A t(a); a.clear(); a = t; } break;
    case 17: { A t(std::move(a)); a = std::move(t); } break;
    case 18: { A t; t.resize(n); std::copy(b, e, t.seq().begin()); a.clear(); a.resize(n); std::move(t.seq().begin(), t.seq().end(), a.seq().begin()); } break;
    case 19: if (serial & 1) std::fill(b, e, r); else for (auto it = b; it != e; ++it) *it = r; break;
    case 20: std::replace_if(b, e, [&](auto&& t) { return k0(t) == x; }, r); break;
    case 21: if (serial & 1) std::sort(b, e); else std::sort(b, e, lt); break;
    case 22: std::sort(b, e, ltk); break;
    case 23: ret = std::partition(b, e, [&](auto&& t) { return k0(t) < x; }) - s.begin(); break;
    case 24: std::nth_element(b, b + x, e); break;
    case 25: std::partial_sort(b, b + x, e); break;
    case 26: std::make_heap(b, e); std::sort_heap(b, e); break;
    case 27: std::sort(b, b + x); std::sort(b + x, e); std::inplace_merge(b, b + x, e); break;
    case 28: std::sort(b, e, [](const auto& p, const auto& q) { return q < p; }); break;
    case 29: std::sort(std::execution::par, b, e, lt); break;
  }
  Ev ev("op"); ev.kv("op", op).kv("a", x).kv("b", y).raw("x", vf::rec_js(r)); if (ret >= 0) ev.kv("ret", ret);
  observe(a, ev); c.add(ev);
}
template <class P> auto at_arrow(P p) { if constexpr (std::is_pointer_v<P>) return p; else { static thread_local std::optional<P> keep; keep.emplace(p); return keep->operator->(); } }
template <class A> void queries(vf::Case& c, A& a) {
  auto& s = a.seq(); const auto& cs = s; auto b = s.begin(), e = s.end(); auto cb = cs.begin(), ce = cs.end(); long n = s.size();
  c.at("queries");
  int v = c.rnd(4); auto hit = [&](auto&& t) { return std::get<0>(t) == v; };
  Ev q("query"); q.kv("v", v).kv("count", (long)std::count_if(cb, ce, hit)).kv("find", (long)(std::find_if(b, e, hit) - b));
  if (n) { auto m = std::min_element(b, e) - b; q.kv("min", (long)m).raw("minrec", vf::rec_js(std::remove_cvref_t<decltype(b[m])>(b[m]))); }
  std::string each = "["; std::for_each(b, e, [&](auto&& t) { if (each.size() > 1) each += ','; each += vf::rec_js(std::remove_cvref_t<decltype(t)>(t)); }); q.raw("each", each + "]");
  A o(a); q.kv("eq", std::equal(b, e, o.seq().begin()));
  if (n) { int k = c.rnd(3); if (k) o.push_at(c.rnd(n), rec<typename A::rec>(c.rnd(3), c.rnd(2)), false); }
  bool same = s == o.seq(); q.kv("same", same).raw("other", vf::seq_js(o.seq().begin(), o.seq().end()));
  c.add(q);
  if (n == 0) return;
  c.at("iterators");
  long i = c.rnd(n), j = c.rnd(n);
  auto one = [&](auto b, auto e) {
    auto p = b + i, r = j + b;
    Ev it("iter"); it.kv("i", i).kv("j", j).kv("d", (long)(r - p)).kv("cmp", std::vector<bool>{p < r, p <= r, p == r, p != r, p > r, p >= r});
    std::string at = "["; auto put = [&](auto&& x) { if (at.size() > 1) at += ','; at += vf::rec_js(std::remove_cvref_t<decltype(x)>(x)); };
    put(*p); put(b[i]); put(r[i - j]); put(*(e - (n - i))); { auto t = b; t += i; put(*t); auto u = e; u -= n - i; put(*u); put(*at_arrow(t.operator->())); auto w = t; put(*w++); put(*--w); auto z = w; put(*z--); }
    it.raw("at", at + "]");
    std::vector<long> st; auto t = p;
    st.push_back((t++) - b); st.push_back(t - b); st.push_back((t--) - b); st.push_back(t - b); st.push_back((++t) - b); st.push_back((--t) - b); t += j - i; st.push_back(t - b); t -= j - i; st.push_back(t - b); { auto u = t; t = r; t = u; } st.push_back(t - b);
    c.add(it.kv("steps", st));
  };
  one(b, e); one(cb, ce);
  { decltype(cb) x = b; x = e; long xe = x - cb; x = b + j; long xj = x - cb; x = b + i; auto back = [&](auto y) { decltype(cb) z(y); return z - cb; }; Ev it("iter"); std::vector<long> st{i, i + 1, i + 1, i, i + 1, i, xj, x - cb, (long)back(b + i) + (xe - n)};
    it.kv("i", i).kv("j", j).kv("d", (long)(back(b + j) - back(b + i))).kv("cmp", std::vector<bool>{i < j, i <= j, i == j, i != j, i > j, i >= j}).raw("at", "[" + vf::rec_js(std::remove_cvref_t<decltype(*x)>(*x)) + "]").kv("steps", st); c.add(it); }
}
template <class A> void history(const std::string& id, const vf::G& g, long var, bool big = false) {
  vf::run_case(std::string(A::name) + std::to_string(std::tuple_size_v<typename A::rec>) + "/" + id, [&](vf::Case& c) {
    A a; int serial = 1; using R = typename A::rec;
    if (big) for (unsigned i = 0, n = 600 + c.rnd(900); i < n; ++i) a.push(rec<R>(c.rnd(1000), serial++), false);
    else { long n = id[0] == 'g' ? var % 5 : c.rnd(4) == 0 ? 16 + c.rnd(24) : c.rnd(6); for (long i = 0; i < n; ++i) a.push(rec<R>(c.rnd(3), serial++), i & 1); }
    c.kv("w", (long)std::tuple_size_v<R>); vf::raw(c, "start", vf::seq_js(a.seq().begin(), a.seq().end()));
    if (big) { for (int k : {29, 9, 22, 21, 28, 29}) apply(c, a, k, 0, 0, 0, serial++); return; }
    if (id[0] == 'g') for (auto& o : g.e) apply(c, a, (int)o.u - 1, o.v, o.w / 1000, o.w % 1000, serial++);
    else for (int j = 0; j < 14; ++j) apply(c, a, c.rnd(3) ? c.rnd(30) : c.rnd(2), c.rnd(c.rnd(2) ? 4 : 30), c.rnd(30), c.rnd(c.rnd(2) ? 3 : 10), serial++);
    queries(c, a);
  });
}
template <class X, class I> void proxies(const std::string& id) {
  vf::run_case("proxysort/" + id, [&](vf::Case& c) {
    c.kv("w", 1); vf::raw(c, "start", "[]");
    for (int k = 0; k < 6; ++k) {
      std::vector<X> x; unsigned n = 1 + c.rnd(k == 0 ? 1200 : 20), m = 1 + c.rnd(30); for (unsigned i = 0; i < n; ++i) x.push_back((X)(k == 0 ? (i * 7919) % 100003 : c.rnd(m)));
      bool desc = k & 1; std::vector<I> p;
      c.at("proxysort");
      if (k < 2) { p.resize(n); if (desc) nw::util::proxysort(x, p, std::greater<X>()); else nw::util::proxysort(x, p, std::less<X>(), std::execution::seq); }
      else if (desc) p = nw::util::proxysort<I>(x, std::greater<X>()); else p = nw::util::proxysort<I>(x, std::less<X>());
      c.at("permutation iterator"); auto f = [&](auto i) { return p[i]; };
      std::vector<X> r; permutation_iterator<typename std::vector<X>::iterator, decltype(f)> b(x.begin(), 0, f), e(x.begin(), n, f); for (auto it = b; it != e; ++it) r.push_back(*it);
      c.add(Ev("proxysort").kv("desc", desc).kv("keys", x).kv("perm", p).kv("read", r));
    }
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g, long k, bool big) {
#if IN_PART(0)
    if (k % 3 != 1) history<Soa<int, double>>(id, g, k, big);
    if (k % 3 != 2) history<Soa<unsigned, Str, long>>(id, g, k, big);
#endif
#if IN_PART(1)
    if (k % 3 == 0) history<Soa<int>>(id, g, k, big);
    if (k % 3 == 1) history<Soa<short, unsigned, double, long>>(id, g, k, big);
    if (k % 3 == 2) history<Aos<int, double>>(id, g, k, big);
#endif
#if IN_PART(2)
    if (k % 3 != 1) history<Zip<int, double>>(id, g, k, big);
    if (k % 3 == 1) history<Zip<unsigned, Str, int>>(id, g, k, big);
    if (k % 3 != 0) history<Aos<unsigned, Str, long>>(id, g, k, big);
    if (k % 3 == 2) history<ZipD<int, long>>(id, g, k, big);
#endif
  };
  std::vector<std::vector<std::vector<long>>> b; if (!opt.cases.empty()) b = read_groups(opt.cases);
  for (size_t k = 0; k < b.size(); ++k) { G g; for (size_t j = 1; j < b[k].size(); ++j) g.e.push_back({(unsigned)b[k][j][0], (unsigned)b[k][j][1], (int)(1000 * b[k][j][2] + b[k][j][3])}); one("g" + std::to_string(k), g, k, false); }
  for (long k = 0; k < opt.count; ++k) { one("r" + std::to_string(k), {}, k, false);
#if IN_PART(1)
    if (k % 4 == 0) { proxies<int, uint32_t>("i" + std::to_string(k)); proxies<double, size_t>("d" + std::to_string(k)); proxies<unsigned, int>("u" + std::to_string(k)); }
#endif
  }
  for (long k = 0; k < std::atol(opt.ex["big"].c_str()); ++k) one("big" + std::to_string(k), {}, k, true);
}
