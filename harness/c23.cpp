// Disjoint sets.
#include "vf.hpp"
#include <map>
#include <set>
#include <memory>
#include "nwgraph/util/disjoint_set.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
struct Op { int k; unsigned u, v; };
const char* kname[] = {"", "union", "try", "find", "reset", "copy"};
using Pairs = std::vector<std::pair<vertex_id_type, size_t>>;
// representatives, found without calling the library; an element on a cycle has none
std::vector<long> reps(const Pairs& s) { std::vector<long> r; for (size_t i = 0; i < s.size(); ++i) { size_t x = i, k = 0; while (x < s.size() && s[x].first != x && k++ <= s.size()) x = s[x].first; r.push_back(x < s.size() && s[x].first == x ? (long)x : -1); } return r; }
void pairs(vf::Case& c, size_t n, const std::vector<Op>& ops) {
  Pairs s(n); for (size_t i = 0; i < n; ++i) s[i] = {(vertex_id_type)i, 0};
  for (auto& o : ops) {
    Ev e(kname[o.k]); e.kv("u", o.u).kv("v", o.v); long ret = 0; c.at(kname[o.k]);
    if (o.k == 1) disjoint_union(s, o.u, o.v);
    else if (o.k == 2) ret = disjoint_union_find(s, o.u, o.v);
    else if (o.k == 3) ret = disjoint_find(s, o.u);
    else continue;
    c.add(e.kv("ret", ret).kv("rep", reps(s)));
  }
}
template <class T> void sets(vf::Case& c, size_t n, const std::vector<Op>& ops, bool size, bool compress) {
  using S = disjoint_set<T>; auto s = std::make_unique<S>((T)n); std::vector<std::unique_ptr<S>> old;
  auto observe = [&](Ev& e) {
    std::vector<long> r, z, f; for (size_t i = 0; i < n; ++i) { r.push_back(i % 2 ? s->find(i) : S::find(*s, i)); if (size) z.push_back(s->getSetSize(i)); }
    std::string sub = "["; bool first = true; for (auto& x : s->getSubsets()) { if (!first) sub += ','; first = false; sub += [&] { std::string o; vf::js(o, std::vector<long>(x.begin(), x.end())); return o; }(); }
    size_t m = 0; auto lab = s->getCompactDisjSets(m); std::vector<long> roots; s->forEachRootIndex([&](T i) { roots.push_back(i); });
    e.kv("rep", r).raw("sets", sub + "]").kv("count", s->getSetNumber()).kv("labels", std::vector<long>(lab.begin(), lab.end())).kv("roots", roots);
    if (size) e.kv("sizes", z);
    if (m != roots.size()) e.kv("count", -1);
  };
  for (auto& o : ops) {
    Ev e(o.k == 2 ? "union" : kname[o.k]); e.kv("u", o.u).kv("v", o.v); long ret = 0; c.at(kname[o.k]);
    if (o.k <= 2) {
      if (compress && o.k == 2) { s->find_with_pathcompression(o.u); s->find_with_pathcompression(o.v); }
      if (size) { if (o.k == 1) s->unionBySize(o.u, o.v); else S::unionBySize(*s, o.u, o.v); } else s->unionByHeight(o.u, o.v);
    }
    else if (o.k == 3) ret = compress ? (o.u % 2 ? S::find_with_pathcompression(*s, o.u) : s->find_with_pathcompression(o.u)) : s->find(o.u);
    else if (o.k == 4) s->reset();
    else { old.push_back(std::move(s)); s = std::make_unique<S>(*old.back()); old.back()->unionBySize(0, n - 1); old.back()->reset(); }   // a copy does not share with the original
    e.kv("ret", ret); observe(e); c.add(e);
  }
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto one = [&](const std::string& id, size_t n, const std::vector<Op>& ops, long k) {
    auto go = [&](const char* w, auto&& f) { vf::run_case(std::string(w) + "/" + id, [&](vf::Case& c) { c.kv("n", (long)n); f(c); }); };
    switch (k % 2) {
      case 0: go("pairs", [&](vf::Case& c) { pairs(c, n, ops); }); break;
      case 1: break;
    }
    switch (k % 4) {
      case 0: go("size", [&](vf::Case& c) { sets<int>(c, n, ops, true, true); }); break;
      case 1: go("height", [&](vf::Case& c) { sets<int>(c, n, ops, false, true); }); break;
      case 2: go("sizel", [&](vf::Case& c) { sets<long>(c, n, ops, true, false); }); break;
      case 3: go("heightl", [&](vf::Case& c) { sets<long>(c, n, ops, false, false); }); break;
    }
  };
  long k = 0;
  if (!opt.cases.empty()) for (auto& b : read_groups(opt.cases)) {
    std::vector<Op> ops; for (size_t j = 1; j < b.size(); ++j) if (b[j].size() >= 3) ops.push_back({(int)b[j][0], (unsigned)b[j][1], (unsigned)b[j][2]});
    one("h" + std::to_string(k), b[0][0], ops, k); ++k;
  }
  Rng r(opt.seed);
  for (long j = 0; j < opt.count; ++j) {
    size_t n = 1 + rn(r, j % 5 ? 14 : 60), m = rn(r, 2 * n + 10); std::vector<Op> ops; unsigned local = 1 + rn(r, 4);
    for (size_t i = 0; i < m; ++i) { int q = rn(r, 40); unsigned u = rn(r, n), v = rn(r, 3) ? rn(r, n) : std::min<unsigned>(n - 1, u + rn(r, local + 1)); ops.push_back({q < 15 ? 1 : q < 28 ? 2 : q < 38 ? 3 : q < 39 && rn(r, 4) == 0 ? 4 : 5, u, v}); }
    one("r" + std::to_string(j), n, ops, j % 2 ? j : j / 2 * 2);
  }
}
