// Jaccard similarity.
#include "alg.hpp"
#include "nwgraph/algorithms/jaccard.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
template <int col, class A> std::string show(A& a, bool weights) {
  std::string s = "["; bool f = true;
  for (auto&& r : a) {
    if (!f) s += ','; f = false; s += "["; bool g = true;
    for (auto&& x : r) {
      if (!g) s += ','; g = false; double w = std::get<col>(x) * 1e6;
      s += "[" + std::to_string((long)std::get<0>(x)) + "," + (w > -1e9 && w < 1e9 ? std::to_string(std::lround(w)) : "1999999999");
      if constexpr (std::tuple_size_v<typename A::attributes_t> > 1) { std::string o; vf::js(o, std::get<3 - col>(x)); s += "," + o; }
      s += "]";
    }
    s += "]";
  }
  return s + "]";
}
template <int col, class A, class L> void drive(const char* name, const std::string& id, const vf::G& g) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    auto l = vf::make_list<L>(g); A a(l); vf::sort_rows(a);
    std::string before = show<col>(a, false); c.at("jaccard"); vf::Quiet quiet;
    size_t n = vf::threads(vf::some_threads(c), [&] { return jaccard_similarity(a, [](auto&& e) -> auto& { return std::get<col>(e); }); });
    c.add(Ev("jaccard").kv("n", n).raw("before", before).raw("after", show<col>(a, true)));
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g0, long k) {
    G g = simple(g0); if (!g.n) return;
    switch (k % 4) {
      case 0: case 1: drive<1, adjacency<0, double>, edge_list<D::undirected, double>>("double", id, g); break;
      case 2: drive<1, adjacency<0, float>, edge_list<D::undirected, float>>("float", id, g); break;
      case 3: drive<2, adjacency<0, int, double>, edge_list<D::undirected, int, double>>("second", id, g); break;
    }
  };
  each_graph(Shape{30, 160, false, false, 9, 1}, one);
  large_graphs(600, 6000, one);
}
