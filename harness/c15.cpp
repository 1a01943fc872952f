// Triangle counts and intersections.
#include "traits_std.hpp"
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/util/util.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/experimental/algorithms/triangle_count.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
struct Results : vf::Distinct { void add(const char* f, size_t n) { put(Ev(f).kv("n", n)); } };
template <class A> void triangles(vf::Case& c, const A& g, bool upper) {
  Results r; size_t n = num_vertices(g); constexpr bool comp = requires { g.to_be_indexed_; }; vf::Quiet quiet;
  auto seq = std::execution::seq; auto par = std::execution::par; auto unseq = std::execution::par_unseq;
  auto run = [&](const char* f, auto&& call) { c.at(f); vf::schedules([&] { r.add(f, vf::threads(vf::some_threads(c), call)); }); };
#if IN_PART(0)
  run("sequential", [&] { return triangle_count(g); });
  if constexpr (comp) {
    run("v2", [&] { return triangle_count_v2(g); });
    run("v15", [&] { return triangle_count_v15(const_cast<A&>(g)); });
    run("v10", [&] { return triangle_count_v10(g); });
    run("v10 par", [&] { return triangle_count_v10(g, unseq, unseq, unseq); });
    run("v10 mixed", [&] { return triangle_count_v10(g, seq, par, seq); });
    if constexpr (std::tuple_size_v<typename A::attributes_t> == 0) {
      run("v3", [&] { return triangle_count_v3(const_cast<A&>(g)); });
      run("v14", [&] { return triangle_count_v14(const_cast<A&>(g)); });
      run("v14 par", [&] { return triangle_count_v14(const_cast<A&>(g), unseq); });
    }
  }
#endif
#if IN_PART(1)
  if constexpr (comp) {
    for (int k = 0; k < 2; ++k) {
      size_t t = 1 + c.rnd(9);
      if constexpr (std::tuple_size_v<typename A::attributes_t> == 0) run("v6", [&] { return triangle_count_v6(g.begin(), g.end(), t); });
      if (g.to_be_indexed_.size()) run("edgesplit", [&] { return triangle_count_edgesplit(g, t); });
      if (upper) {
        run("threads", [&] { return triangle_count(g, t); });
        run("v4", [&] { return triangle_count_v4(g.begin(), g.end(), t); });
        run("v5", [&] { return triangle_count_v5(g.begin(), g.end(), t); });
        if (g.to_be_indexed_.size()) run("edgesplit upper", [&] { return triangle_count_edgesplit_upper(g, t); });
        run("v12", [&] { return triangle_count_v12(g, (int)t); });
      }
      run("v13", [&] { return triangle_count_v13(g, (int)t); });
    }
    if (upper) {
      run("v1", [&] { return triangle_count_v1(g); });
      run("v7", [&] { return triangle_count_v7(g); });
      run("v7 seq", [&] { return triangle_count_v7(g, seq, unseq); });
      run("v7 par", [&] { return triangle_count_v7(g, unseq, unseq); });
    }
  }
#endif
  c.add(Ev("tc").raw("res", r.s + "]"));
}
void intersections(const std::string& id, vf::Rng& rg) {
  vf::run_case(id, [&](vf::Case& c) {
    for (int k = 0; k < 12; ++k) {
      int top = 1 + c.rnd(30); bool big = k == 11; std::vector<std::tuple<int, int>> x, y;
      auto fill = [&](auto& v, size_t n, bool multi) { std::vector<int> w; for (size_t i = 0; i < n; ++i) w.push_back(c.rnd(big ? 5000 : top)); std::sort(w.begin(), w.end()); if (!multi) w.erase(std::unique(w.begin(), w.end()), w.end()); for (int i : w) v.push_back({i, (int)c.rnd(9)}); };
      bool multi = c.rnd(3) == 0; fill(x, big ? 1500 : c.rnd(15), multi); fill(y, big ? 1200 + c.rnd(400) : c.rnd(15), multi);
      const auto& cx = x; auto xb = x.begin(), xe = x.end(), yb = y.begin(), ye = y.end(); std::vector<size_t> n;
      auto seq = std::execution::seq; auto par = std::execution::par; auto unseq = std::execution::par_unseq;
      c.at("intersection_size");
      n.push_back(intersection_size(x, y)); n.push_back(intersection_size(cx, y, seq)); n.push_back(intersection_size(x, y, par));
      n.push_back(intersection_size(xb, xe, y)); n.push_back(intersection_size(xb, xe, y, unseq)); n.push_back(intersection_size(xb, xe, yb, ye));
      n.push_back(intersection_size(xb, xe, yb, ye, seq)); n.push_back(intersection_size(xb, xe, yb, ye, par)); n.push_back(intersection_size(y, x));
      std::vector<int> a, b; for (auto& e : x) a.push_back(std::get<0>(e)); for (auto& e : y) b.push_back(std::get<0>(e));
      c.add(Ev("int").kv("x", a).kv("y", b).kv("n", n));
    }
  });
}
template <class A, class F> void drive(const char* name, const std::string& id, const vf::G& g, bool upper, F&& f) {
  vf::run_case(std::string(name) + (upper ? "U/" : "L/") + id, [&](vf::Case& c) { auto a = f(); vf::sort_rows(a); vf::raw(c, "rows", vf::rows_js(a)); c.kv("upper", upper); triangles<A>(c, a, upper); });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g0, long k) {
    G g = simple(g0); bool upper = k % 3 != 2;
    for (auto& x : g.e) if ((x.u > x.v) == upper) std::swap(x.u, x.v);
    std::sort(g.e.begin(), g.e.end(), [](auto& a, auto& b) { return std::tie(a.u, a.v) < std::tie(b.u, b.v); });
    using L0 = edge_list<D::directed>; using L1 = edge_list<D::directed, int>;
    switch (k % 4) {
      case 0: case 1: drive<adjacency<0>>("a0", id, g, upper, [&] { auto l = make_list<L0>(g); return adjacency<0>(l); }); break;
      case 2: drive<adjacency<0, int>>("a1", id, g, upper, [&] { auto l = make_list<L1>(g); return adjacency<0, int>(l); }); break;
      case 3: if (g.n < 100) drive<vov<0, int>>("vov", id, g, upper, [&] { auto l = make_list<L1>(g); return vov<0, int>(l); }); break;
    }
  };
  each_graph(Shape{30, 160, false, false, 9, 1}, one);
  Rng r(opt.seed + 5);
#if IN_PART(0)
  for (long j = 0; j < opt.count / 2; ++j) intersections("int" + std::to_string(j), r);
#endif
  large_graphs(1200, 9000, [&](const std::string& id, const G& g, long k) { one(id, g, k); });
}
