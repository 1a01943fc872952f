// k-core.
#include "alg.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include "nwgraph/algorithms/k_core.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
template <class A, class L> void drive(const char* name, const std::string& id, const vf::G& g) {
  vf::run_case(std::string(name) + "/" + id, [&](vf::Case& c) {
    auto l = vf::make_list<L>(g); A a(l); vf::raw(c, "rows", vf::rows_js(a));
    size_t top = 0; for (auto&& r : a) top = std::max<size_t>(top, std::distance(r.begin(), r.end()));
    std::set<int> ks{0, 1, 2, 3, (int)top, (int)top + 1, -1, (int)c.rnd(top + 2)};
    for (int k : ks) if (g.n <= 60 || (k >= 2 && k < (int)top)) {
      c.at("k_core"); auto [f, n] = k_core(std::as_const(a), k);
      std::vector<std::tuple<size_t, size_t, bool>> cut; for (auto& [e, b] : f) cut.emplace_back(e.first, e.second, b);
      c.add(Ev("core").kv("kk", k).kv("n", n).kv("cut", cut));
    }
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, const G& g0, long k) {
    G g = simple(g0);
    switch (k % 4) {
      case 0: case 1: drive<adjacency<0>, edge_list<D::undirected>>("a0", id, g); break;
      case 2: drive<adjacency<1>, edge_list<D::undirected>>("a1", id, g); break;
      case 3: if (g.n && g.n < 100) drive<vov<0>, edge_list<D::undirected>>("vov", id, g); break;
    }
  };
  each_graph(Shape{40, 160, false, false, 9}, one);
  large_graphs(1500, 9000, one);
}
