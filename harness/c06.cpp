// Binary serialization: histories of saves and loads generated from SerialMC.
#include "gr.hpp"
#include "nwgraph/containers/aos.hpp"
using namespace nw::graph;
namespace vf::drv {
using vf::Ev;
using D = directedness;
template <class T> void hex(std::string& o, const T& v) { char b[3]; o += '"'; unsigned char m[sizeof(T)]; std::memcpy(m, &v, sizeof(T)); for (auto x : m) { snprintf(b, 3, "%02x", x); o += b; } o += '"'; }
template <class R> std::string rec_hex(const R& r) { return [&]<size_t... J>(std::index_sequence<J...>) { std::string s = "["; ((s += (J ? "," : ""), hex(s, std::get<J>(r))), ...); return s + "]"; }(std::make_index_sequence<std::tuple_size_v<R>>{}); }
template <class R> std::string range_hex(R&& r) { std::string s = "["; bool f = true; for (auto&& x : r) { if (!f) s += ','; f = false; s += rec_hex(std::remove_cvref_t<decltype(x)>(x)); } return s + "]"; }
template <class T> T rbits(vf::Case& c) { T v; if constexpr (std::is_same_v<T, bool>) v = c.rnd(2); else { unsigned long x = c.rng(); if (c.rnd(4) == 0) x = c.rnd(2) ? 0 : ~0ul; std::memcpy(&v, &x, sizeof(T)); } return v; }
unsigned size(vf::Case& c) { return c.rnd(60) == 0 ? 200 + c.rnd(1500) : c.rnd(4) ? c.rnd(12) : 0; }
template <class T> struct Kind;
template <class L> struct ListKind {
  static std::string content(L& l) { return Ev("list").raw("recs", range_hex(l)).raw("crecs", range_hex((const L&)l)).kv("size", l.size()).kv("nv", l.num_vertices()).kv("m", l.num_edges()).str(); }
  static typename L::element rnd(vf::Case& c, unsigned n) { typename L::element e; std::get<0>(e) = c.rnd(n); std::get<1>(e) = c.rnd(n); [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J + 2>(e) = rbits<std::tuple_element_t<J + 2, typename L::element>>(c)), ...); }(std::make_index_sequence<vf::n_attr<L>>{}); return e; }
  static void fill(L& l, vf::Case& c) { unsigned n = 1 + c.rnd(9); unsigned m = size(c); l.open_for_push_back(); for (unsigned j = 0; j < m; ++j) l.push_back(rnd(c, n)); l.close_for_push_back(); }
  static void make(L& l, vf::Case& c) { if constexpr (std::is_base_of_v<bipartite_graph_base, L>) l = L(c.rnd(12), c.rnd(12)); else l = L(c.rnd(12)); fill(l, c); }
  static void more(L& l, const std::vector<typename L::element>& es) { l.open_for_push_back(); for (auto& e : es) l.push_back(e); l.close_for_push_back(); }
  static void twin(L& a, L& b, vf::Case& c) { std::vector<typename L::element> es; for (int j = 0; j < 3; ++j) es.push_back(rnd(c, 20)); more(a, es); more(b, es); sort_by<0>(a); sort_by<0>(b); }
};
template <class A, class L> struct AdjKind {
  static std::string content(A& a) { std::string h = "["; for (size_t i = 0; i < a.size(); ++i) { if (i) h += ','; h += range_hex(((const A&)a)[i]); } return Ev("adj").raw("hex", h + "]").raw("obs", vf::observe_rows(a)).kv("nvs", a.num_vertices()).str(); }
  static void make(A& a, vf::Case& c) { L l; ListKind<L>::make(l, c); a = A(l, c.rnd(2)); }
  static void twin(A& a, A& b, vf::Case& c) { a.sort_to_be_indexed(); b.sort_to_be_indexed(); a.template triangularize<succession::predecessor>(); b.template triangularize<succession::predecessor>(); }
};
template <class S> struct ColKind {
  static std::string content(S& s) { return Ev("cols").raw("recs", range_hex(s)).raw("crecs", range_hex((const S&)s)).kv("size", s.size()).str(); }
  static auto rnd(vf::Case& c) { return [&]<class... A>(std::type_identity<std::tuple<A...>>) { return std::tuple<A...>{rbits<A>(c)...}; }(std::type_identity<std::tuple<int, double, char, unsigned long>>{}); }
  static void make(S& s, vf::Case& c) { s.clear(); unsigned m = size(c); for (unsigned j = 0; j < m; ++j) s.push_back(rnd(c)); }
  static void twin(S& a, S& b, vf::Case& c) { auto e = rnd(c); a.push_back(e); b.push_back(e); std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); }
};
template <> struct Kind<edge_list<D::directed>> : ListKind<edge_list<D::directed>> {};
template <> struct Kind<edge_list<D::undirected, int, double>> : ListKind<edge_list<D::undirected, int, double>> {};
template <> struct Kind<bi_edge_list<D::directed, double, char>> : ListKind<bi_edge_list<D::directed, double, char>> {};
template <> struct Kind<adjacency<0>> : AdjKind<adjacency<0>, edge_list<D::directed>> {};
template <> struct Kind<adjacency<1, double, int>> : AdjKind<adjacency<1, double, int>, edge_list<D::undirected, double, int>> {};
template <> struct Kind<biadjacency<0, int>> : AdjKind<biadjacency<0, int>, bi_edge_list<D::directed, int>> {};
template <> struct Kind<biadjacency<1, double>> : AdjKind<biadjacency<1, double>, bi_edge_list<D::directed, double>> {};
using soa = struct_of_arrays<int, double, char, unsigned long>;
using aos = array_of_structs<int, double, char, unsigned long>;
template <> struct Kind<soa> : ColKind<soa> {};
template <> struct Kind<aos> : ColKind<aos> {};
struct csr : indexed_struct_of_arrays<uint32_t, uint32_t, double> { csr(size_t n = 0) : indexed_struct_of_arrays<uint32_t, uint32_t, double>(n) {} };
template <> struct Kind<csr> {
  static std::string content(csr& a) { std::string h = "["; bool f = true; for (auto&& r : (const csr&)a) { if (!f) h += ','; f = false; h += range_hex(r); } return Ev("csr").raw("hex", h + "]").kv("size", a.size()).kv("ind", a.get_indices()).str(); }
  static void make(csr& a, vf::Case& c) { a = csr(c.rnd(5)); unsigned m = size(c), u = 0; a.open_for_push_back(); for (unsigned j = 0; j < m; ++j) { u += c.rnd(3); a.push_back(u, c.rnd(9), rbits<double>(c)); } a.close_for_push_back(); }
  static void twin(csr& a, csr& b, vf::Case&) { a.sort_to_be_indexed(); b.sort_to_be_indexed(); }
};
const char* names[] = {"", "make", "write", "read", "save", "load"};
template <class T> void history(const char* tag, const std::string& id, const std::vector<std::vector<long>>& ops) {
  vf::run_case(std::string(tag) + "/" + id, [&](vf::Case& c) {
    c.kv("type", tag);
    constexpr bool streams = requires(T& t, std::stringstream& s) { t.serialize(s); t.deserialize(s); };
    std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
    std::vector<T> slot(8); std::string dir = "c06-" + std::to_string(getpid()) + "-";
    std::vector<std::string> pending;   // files standing in for the stream when the type has no stream version
    size_t rd = 0;
    for (auto& o : ops) {
      int k = o[0]; T& x = slot[o[1]]; c.at(names[k]);
      std::string f = dir + "f" + std::to_string(o[2]);
      switch (k) {
        case 1: Kind<T>::make(x, c); break;
        case 2: if constexpr (streams) x.serialize(st); else { pending.push_back(dir + "q" + std::to_string(pending.size())); x.serialize(pending.back()); } break;
        case 3: if constexpr (streams) x.deserialize(st); else x.deserialize(pending[rd++]); break;
        case 4: x.serialize(f); break;
        case 5: x.deserialize(f); break;
      }
      c.at("observe");
      Ev e(names[k]); e.kv("slot", o[1]).kv("file", o[2]).raw("content", Kind<T>::content(x)); c.add(e);
    }
    { c.at("twin"); std::string f = dir + "t"; slot[6].serialize(f); T a; Kind<T>::make(a, c); a.serialize(f); Kind<T>::make(slot[7], c); slot[7].deserialize(f); Kind<T>::twin(a, slot[7], c);
      c.add(Ev("twin").raw("a", Kind<T>::content(a)).raw("b", Kind<T>::content(slot[7]))); unlink(f.c_str()); }
    for (auto& p : pending) unlink(p.c_str());
    for (int j = 0; j < 4; ++j) unlink((dir + "f" + std::to_string(j)).c_str());
  });
}
// different types back to back in one stream
template <class... T> void mixed(const std::string& id) {
  vf::run_case("mixed/" + id, [&](vf::Case& c) {
    std::stringstream st(std::ios::in | std::ios::out | std::ios::binary); std::tuple<T...> a, b; int k = 0;
    std::apply([&](auto&... x) { (([&] { c.at("make"); Kind<std::remove_reference_t<decltype(x)>>::make(x, c); c.add(Ev("make").kv("slot", ++k).kv("file", 1).raw("content", Kind<std::remove_reference_t<decltype(x)>>::content(x)));
      c.at("write"); x.serialize(st); c.add(Ev("write").kv("slot", k).kv("file", 1).raw("content", Kind<std::remove_reference_t<decltype(x)>>::content(x))); }()), ...); }, a);
    std::apply([&](auto&... x) { (([&] { if (c.rnd(2)) Kind<std::remove_reference_t<decltype(x)>>::make(x, c); c.at("read"); x.deserialize(st); c.add(Ev("read").kv("slot", ++k).kv("file", 1).raw("content", Kind<std::remove_reference_t<decltype(x)>>::content(x))); }()), ...); }, b);
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  using L1 = edge_list<D::directed>; using L2 = edge_list<D::undirected, int, double>; using L3 = bi_edge_list<D::directed, double, char>;
  using A1 = adjacency<0>; using A2 = adjacency<1, double, int>; using B1 = biadjacency<0, int>; using B2 = biadjacency<1, double>;
  auto hist = read_groups(opt.cases);
  for (size_t j = 0; j < hist.size(); ++j) {
    std::vector<std::vector<long>> ops(hist[j].begin() + 1, hist[j].end()); std::string id = std::to_string(j);
    int k = opt.thorough ? -1 : j % 10;
#define VF_H(q, T) if (k < 0 || k == q) history<T>(#T, id, ops);
#if IN_PART(0)
    VF_H(0, L1) VF_H(1, L2) VF_H(2, L3) VF_H(3, soa) VF_H(4, aos)
#endif
#if IN_PART(1)
    VF_H(5, A1) VF_H(6, A2) VF_H(7, csr)
#endif
#if IN_PART(2)
    VF_H(8, B1) VF_H(9, B2)
#endif
  }
#if IN_PART(0)
  for (long j = 0; j < opt.count; ++j) mixed<L1, soa, L3, aos, csr, L2, soa, L1>(std::to_string(j));
#endif
}
