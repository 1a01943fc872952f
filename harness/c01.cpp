// Replays operation histories generated from EdgeListMC (and random longer ones)
// into the real edge lists; records everything an observer sees after every call.
#include "nwgraph/edge_list.hpp"
#include "vf.hpp"
using namespace nw::graph;
namespace vf::drv {
struct Op { int k; unsigned u, v; int a; int n; };
const char* kname[] = {"", "push", "pusht", "open", "close", "clear", "reserve", "copy", "assign", "move", "read", "resize"};

template <class T> T attr(int a, int j) { return (T)(a * (j + 1)); }
template <> bool attr<bool>(int a, int) { return a & 1; }

template <class Tup, size_t... J> std::string rec(const Tup& t, std::index_sequence<J...>) {
  std::string s = "["; ((s += (J ? "," : ""), vf::js(s, std::get<J>(t))), ...); return s + "]";
}
template <class L> constexpr size_t NA = std::tuple_size_v<typename L::element> - 2;

template <class L, class It> std::string all(It b, It e) {
  std::string s = "["; bool f = true;
  for (; b != e; ++b) { if (!f) s += ','; f = false; auto&& r = *b; s += rec(r, std::make_index_sequence<NA<L> + 2>{}); }
  return s + "]";
}
template <class L> std::string observe(L& l) {
  const L& cl = l;
  vf::Ev o("obs");
  o.raw("edges", all<L>(l.begin(), l.end())).raw("cedges", all<L>(cl.begin(), cl.end()));
  std::string s = "[", st = "[";
  for (size_t i = 0; i < l.size(); ++i) { if (i) s += ','; s += rec(i & 1 ? typename L::element(cl[i]) : typename L::element(l[i]), std::make_index_sequence<NA<L> + 2>{}); }
  o.raw("iedges", s + "]");
  bool f = true;
  for (auto it = l.begin(); it != l.end(); ++it) { if (!f) st += ','; f = false; typename L::reference e = *it; vf::js(st, std::pair{source(l, e), target(l, e)}); }
  o.raw("st", st + "]");
  o.kv("size", cl.size()).kv("m", cl.num_edges()).kv("mcpo", num_edges(cl)).kv("nv", cl.num_vertices()).kv("nvcpo", num_vertices(cl));
  if constexpr (std::tuple_size_v<typename L::num_vertices_type> == 2) o.kv("nv1", num_vertices(cl, 1)); else o.kv("nv1", 0);
  return o.str();
}
template <class L, class... A> typename L::element make(const Op& o) {
  typename L::element e; std::get<0>(e) = o.u; std::get<1>(e) = o.v;
  [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J + 2>(e) = attr<std::tuple_element_t<J + 2, typename L::element>>(o.a, J)), ...); }(std::make_index_sequence<NA<L>>{});
  return e;
}
template <class L> std::string attrs_json(const typename L::element& e) {
  std::string s = "[";
  [&]<size_t... J>(std::index_sequence<J...>) { ((s += (J ? "," : ""), vf::js(s, std::get<J + 2>(e))), ...); }(std::make_index_sequence<NA<L>>{});
  return s + "]";
}
template <class L> void event(vf::Case& c, const Op& o, const typename L::element& e, L& l) {
  vf::Ev ev(kname[o.k]);
  ev.kv("u", o.u).kv("v", o.v).raw("a", attrs_json<L>(e)).kv("n", o.n).raw("obs", observe(l));
  c.add(ev);
}

template <class L> void history(const std::string& id, bool bi, std::vector<long> decl, const std::vector<Op>& ops) {
  vf::run_case(id, [&](vf::Case& c) {
    c.kv("kind", bi ? "bi" : "uni").kv("na", (long)NA<L>).kv("decl", decl);
    auto mk = [&]() { if constexpr (std::is_base_of_v<bipartite_graph_base, L>) return L(decl[0], decl[1]); else return L(decl[0]); };
    c.at("construct");
    L l = mk();
    { vf::Ev ev("ctor"); ev.raw("obs", observe(l)); c.add(ev); }
    for (auto& o : ops) {
      c.at(kname[o.k]);
      auto e = make<L>(o);
      switch (o.k) {
        case 1: std::apply([&](auto... x) { l.push_back(x...); }, e); break;
        case 2: l.push_back(e); break;
        case 3: l.open_for_push_back(); break;
        case 4: l.close_for_push_back(); break;
        case 5: l.clear(); break;
        case 6: l.reserve(10 + o.n); break;
        case 7: { L t(l); l.clear(); l = t; break; }
        case 8: { L t = mk(); t = l; L t2(std::move(l)); l = t; break; }
        case 9: { L t(std::move(l)); l = std::move(t); break; }
        case 10: break;
        case 11: l.resize(o.n); break;
      }
      event<L>(c, o, e, l);
    }
  });
}
template <class L> void initlist(const std::string& id, bool bi) {
  auto go = [&](const std::string& sub, std::initializer_list<typename L::element> il) {
    vf::run_case(id + sub, [&](vf::Case& c) {
      c.kv("kind", bi ? "bi" : "uni").kv("na", (long)NA<L>).kv("decl", bi ? std::vector<long>{0, 0} : std::vector<long>{0});
      L l(il);
      std::string g = "["; bool f = true; for (auto& e : il) { if (!f) g += ','; f = false; g += rec(e, std::make_index_sequence<NA<L> + 2>{}); }
      vf::Ev ev("init"); ev.raw("given", g + "]").raw("obs", observe(l)); c.add(ev);
      for (int k : {3, 1, 4, 3, 2, 4}) {
        Op o{k, c.rnd(9), c.rnd(9), (int)c.rnd(5), 0}; auto e = make<L>(o);
        if (k == 3) l.open_for_push_back(); else if (k == 4) l.close_for_push_back(); else if (k == 2) l.push_back(e); else std::apply([&](auto... x) { l.push_back(x...); }, e);
        event<L>(c, o, e, l);
      }
    });
  };
  auto E = [](int u, int v, int a) { return make<L>(Op{1, (unsigned)u, (unsigned)v, a, 0}); };
  go("a", {}); go("b", {E(0, 0, 1)}); go("c", {E(4, 1, 1), E(0, 3, 2)}); go("d", {E(2, 7, 3), E(7, 2, 4), E(2, 7, 3)}); go("e", {E(0, 5, 2), E(3, 0, 1), E(1, 1, 1), E(0, 0, 0)});
}

template <class L> void random_histories(const std::string& tag, bool bi, vf::Rng& r, long count) {
  for (long j = 0; j < count; ++j) {
    std::vector<long> decl; for (int k = 0; k < (bi ? 2 : 1); ++k) decl.push_back(vf::rn(r, 3) ? vf::rn(r, 30) : 0);
    std::vector<Op> ops; bool open = true; unsigned len = j == count - 1 ? 150 + vf::rn(r, 150) : 5 + vf::rn(r, 25), big = vf::rn(r, 6) ? 20 : 1000000;
    for (unsigned i = 0; i < len; ++i) {
      Op o{0, vf::rn(r, big), vf::rn(r, big), (int)vf::rn(r, 100), 0};
      unsigned p = vf::rn(r, 20);
      if (p < 12) o.k = open ? 1 + (int)vf::rn(r, 2) : 3; else if (p < 13) o.k = 3; else if (p < 14) o.k = 4; else if (p < 15) { o.k = 6; o.n = vf::rn(r, 100); }
      else if (p < 16) o.k = 7; else if (p < 17) o.k = 8; else if (p < 18) o.k = 9; else if (p < 19) o.k = vf::rn(r, len > 50 ? 40 : 3) ? 10 : 5; else { o.k = len > 50 && vf::rn(r, 20) ? 2 : 11; o.n = vf::rn(r, 12); if (o.k == 2 && !open) o.k = 3; }
      if (o.k == 3) open = true; if (o.k == 4) open = false;
      ops.push_back(o);
    }
    ops.push_back({4, 0, 0, 0, 0});
    history<L>(tag + std::to_string(j), bi, decl, ops);
  }
}
}    // namespace vf::drv
namespace vf { using namespace drv; }

void vf::run() {
  using D0 = edge_list<directedness::directed>; using U0 = edge_list<directedness::undirected>;
  using D1 = edge_list<directedness::directed, int>; using U1 = edge_list<directedness::undirected, int>;
  using D2 = edge_list<directedness::directed, double, int>; using U3 = edge_list<directedness::undirected, int, float, unsigned char>;
  using B0 = bi_edge_list<directedness::directed>; using B1 = bi_edge_list<directedness::directed, int>; using B2 = bi_edge_list<directedness::undirected, int, double>;
  using S1 = index_edge_list<size_t, unipartite_graph_base, directedness::directed, int>;
  long idx = 0;
  if (!opt.cases.empty()) for (auto& b : read_groups(opt.cases)) {
    std::vector<Op> ops; for (size_t j = 1; j < b.size(); ++j) ops.push_back({(int)b[j][0], (unsigned)b[j][1], (unsigned)b[j][2], (int)b[j][3], (int)b[j][4]});
    std::vector<long> decl(b[0].begin() + 1, b[0].end());
    std::string id = std::to_string(idx++);
    if (b[0][0] == 0) {
      switch (idx % 6) { case 0: history<D1>("g/d1/" + id, false, decl, ops); break; case 1: history<U1>("g/u1/" + id, false, decl, ops); break; case 2: history<D0>("g/d0/" + id, false, decl, ops); break;
        case 3: history<U0>("g/u0/" + id, false, decl, ops); break; case 4: history<D2>("g/d2/" + id, false, decl, ops); break; default: history<S1>("g/s1/" + id, false, decl, ops); }
    } else {
      switch (idx % 3) { case 0: history<B0>("g/b0/" + id, true, decl, ops); break; case 1: history<B1>("g/b1/" + id, true, decl, ops); break; default: history<B2>("g/b2/" + id, true, decl, ops); }
    }
  }
  initlist<D0>("i/d0", false); initlist<U1>("i/u1", false); initlist<D2>("i/d2", false); initlist<B0>("i/b0", true); initlist<B2>("i/b2", true);
  Rng r(opt.seed); long n = opt.count;
  random_histories<D0>("r/d0/", false, r, n); random_histories<U0>("r/u0/", false, r, n); random_histories<D1>("r/d1/", false, r, n); random_histories<U1>("r/u1/", false, r, n);
  random_histories<D2>("r/d2/", false, r, n); random_histories<U3>("r/u3/", false, r, n); random_histories<S1>("r/s1/", false, r, n);
  random_histories<B0>("r/b0/", true, r, n); random_histories<B1>("r/b1/", true, r, n); random_histories<B2>("r/b2/", true, r, n);
}
