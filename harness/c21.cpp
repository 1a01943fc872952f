// Sparse matrix products and element-wise intersection.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/algorithms/spMatspMat.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
struct Min { template <class T> T operator()(T a, T b) const { return std::min(a, b); } };
struct Max { template <class T> T operator()(T a, T b) const { return std::max(a, b); } };
// rows of distinct, ascending columns below cols
vf::G matrix(vf::Rng& r, unsigned rows, unsigned cols, unsigned m) {
  vf::G g; g.n = rows; std::set<std::pair<unsigned, unsigned>> s;
  for (unsigned k = 0; k < m && rows && cols; ++k) s.insert({vf::rn(r, rows), vf::rn(r, cols)});
  for (auto& [u, v] : s) g.e.push_back({u, v, (int)vf::rn(r, 9) - 3});
  return g;
}
template <class L> L list_of(const vf::G& g, unsigned n) { L l(n); l.open_for_push_back(); for (auto& x : g.e) l.push_back(x.u, x.v, x.w); l.close_for_push_back(); return l; }
template <class A, class B, class S> void products(vf::Case& c, A& a, B& b, bool trans, bool dups) {
  std::string ra = vf::rows_js(a), rb = vf::rows_js(b);
  auto put = [&](const char* k, const char* op, auto&& l) { c.add(Ev(k).kv("op", op).raw("a", ra).raw("b", rb).raw("c", vf::list_js(l))); };
  if (trans) { c.at("spMatspMatT"); put("productT", "sum", spMatspMatT<S>(a, b)); return; }
  c.at("spMatspMat"); put("product", "sum", spMatspMat<S>(std::as_const(a), std::as_const(b)));
  switch (c.rnd(4)) {
    case 0: put("product", "min", spMatspMat<S, A, B, std::plus<S>, Min>(a, b)); break;
    case 1: put("product", "max", spMatspMat<S, A, B, std::multiplies<S>, Max>(a, b)); break;
  }
}
template <class A, class LA, class B, class LB, class S> void drive(const char* name, const std::string& id, const vf::G& x, const vf::G& y, bool trans, bool dups) {
  vf::run_case(std::string(name) + (trans ? "T/" : "/") + id, [&](vf::Case& c) {
    unsigned n = x.n, m = y.n;
    auto la = list_of<LA>(x, n); A a(la); auto lb = list_of<LB>(y, m); B b(lb);
    if (trans) { vf::sort_rows(a); vf::sort_rows(b); }
    products<A, B, S>(c, a, b, trans, dups);
  });
}
void meets(const std::string& id) {
  vf::run_case(id, [&](vf::Case& c) {
    for (int k = 0; k < 10; ++k) {
      int top = 1 + c.rnd(20); std::vector<std::tuple<int, int>> x, y; int ctr = 0;
      auto fill = [&](auto& v) { std::vector<int> w; for (size_t i = 0, n = c.rnd(14); i < n; ++i) w.push_back(c.rnd(top)); std::sort(w.begin(), w.end()); if (k % 2) w.erase(std::unique(w.begin(), w.end()), w.end()); for (int i : w) v.push_back({i, ++ctr}); };
      fill(x); fill(y); std::vector<std::tuple<int, int, int>> out; c.at("set_ewise_intersection");
      set_ewise_intersection(x.begin(), x.end(), y.begin(), y.end(), out, [](auto&& p, auto&& q) { return std::get<0>(p) < std::get<0>(q); }, [](auto&& p, auto&& q) { return std::tuple(std::get<0>(p), std::get<1>(p), std::get<1>(q)); });
      c.add(Ev("meet").kv("x", x).kv("y", y).kv("out", out));
    }
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  using I = edge_list<D::directed, int>; using F = edge_list<D::directed, double>;
  auto pair = [&](const std::string& id, const G& x, const G& y, long k, bool dups) {
    bool trans = k % 2;
    switch ((k / 2) % 4) {
#if IN_PART(0)
      case 0: drive<adjacency<0, int>, I, adjacency<0, int>, I, int>("int", id, x, y, trans, dups); break;
      case 1: drive<adjacency<0, double>, F, adjacency<0, double>, F, double>("double", id, x, y, trans, dups); break;
#endif
#if IN_PART(1)
      case 2: drive<adjacency<0, int>, I, adjacency<0, double>, F, double>("mixed", id, x, y, trans, dups); break;
      case 3: if (x.n && y.n) drive<vov<0, int>, I, vov<0, int>, I, long>("vov", id, x, y, trans, dups); break;
#endif
      default: break;
    }
  };
  G prev; prev.n = 1; Rng r(opt.seed + 9);
  if (!opt.cases.empty()) each_graph(Shape{1, 0, false, false, 1}, [&](const std::string& id, const G& g0, long k) {   // pairs of generated matrices
    if (id[0] != 'g') return;
    G g = g0; for (auto& x : g.e) x.w = (int)rn(r, 7) - 2;
    unsigned n = std::max(g.n, prev.n); G a = g, b = prev; a.n = b.n = n;
    pair(id, a, b, k, false); prev = g;
  });
  for (long k = 0; k < opt.count; ++k) {
    unsigned rows = rn(r, 9), cols = rn(r, 9), n = std::max(rows, cols), m = n + rn(r, 3);
    bool big = k % 40 == 39; if (big) { rows = cols = n = m = 25 + rn(r, 15); }
    bool trans = k % 2;   // product: columns of a below rows of b; transposed: any columns
    G a = matrix(r, rows, cols, rn(r, big ? 150 : 25)), b = matrix(r, m, trans ? std::max(1u, cols) : m, rn(r, big ? 150 : 25)); a.n = n;
    bool dups = !trans && rn(r, 4) == 0; if (dups) for (size_t j = 0, e = a.e.size(); j < e && j < 4; ++j) a.e.push_back(a.e[rn(r, e)]);
    pair("r" + std::to_string(k), a, b, k, dups);
  }
#if IN_PART(0)
  for (long k = 0; k < opt.count / 4; ++k) meets("meet" + std::to_string(k));
#endif
}
