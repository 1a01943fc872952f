// Matrix Market files: reading generated files, writing lists and adjacencies, reading them back.
#include "gr.hpp"
#include "nwgraph/io/mmio.hpp"
using namespace nw::graph;
namespace vf::drv {
using D = directedness;
using vf::Ev;
// a value as an opaque token (the specification has no reals)
template <class T> std::string tok(T v) { char b[64]; snprintf(b, sizeof b, "%a", (double)v); return b; }
template <class E> std::string ent_js(const E& e, bool vals) {
  std::string s = "["; vf::js(s, (size_t)std::get<0>(e)); s += ','; vf::js(s, (size_t)std::get<1>(e));
  if constexpr (std::tuple_size_v<E> > 2) if (vals) [&]<size_t... J>(std::index_sequence<J...>) { ((s += ',', vf::js(s, tok(std::get<J + 2>(e)))), ...); }(std::make_index_sequence<std::tuple_size_v<E> - 2>{});
  return s + "]";
}
template <class L> std::string list_js(const L& l, bool dir) {
  std::string s = "["; bool f = true;
  for (auto it = l.begin(); it != l.end(); ++it) { if (!f) s += ','; f = false; s += ent_js(typename L::element(*it), true); }
  return Ev("list").kv("n", (size_t)l.num_vertices()[0]).kv("dir", dir).raw("ents", s + "]").str();
}
// an independent parse of a written file
std::string parse(const std::string& fn) {
  std::ifstream in(fn); std::string line; std::getline(in, line);
  std::stringstream h(line); std::string w[5]; for (auto& x : w) h >> x;
  while (std::getline(in, line) && !line.empty() && line[0] == '%') {}
  long r = -7, c = -7, z = -7; std::stringstream(line) >> r >> c >> z;
  std::string s = "["; bool f = true, val = w[3] != "pattern";
  while (std::getline(in, line)) {
    std::stringstream t(line); std::string a, b, v, x; t >> a >> b; if (val) t >> v;
    if (a.empty()) continue;
    if (!f) s += ','; f = false; s += '['; vf::js(s, atol(a.c_str())); s += ','; vf::js(s, atol(b.c_str()));
    if (val) { s += ','; vf::js(s, w[3] == "integer" ? tok((double)atoll(v.c_str())) : tok(strtod(v.c_str(), nullptr))); }
    if (t >> x) s += ",\"trailing " + x + "\"";
    s += ']';
  }
  return Ev("file").kv("magic", w[0] + " " + w[1] + " " + w[2]).kv("sym", w[4]).kv("val", val).kv("rows", r).kv("cols", c).kv("nnz", z).raw("ents", s + "]").str();
}
struct Input { unsigned rows, cols; bool sym, val; vf::G g; bool real; };
// text of a value in one of several notations
std::string number(vf::Case& c, bool real, int w) {
  char b[64];
  if (!real) { long v = c.rnd(6) == 0 ? -(long)w * 31 : c.rnd(4) == 0 ? w * 1000003l : w; snprintf(b, sizeof b, "%ld", v); return b; }
  double v; switch (c.rnd(6)) { case 0: v = w; break; case 1: v = -w / 8.0; break; case 2: v = 1.0 / (1 + w + c.rnd(1000)); break; case 3: v = std::ldexp(1.0 + c.rnd(1u << 30) / 1073741824.0, (int)c.rnd(200) - 100); break; case 4: v = 0; break; default: v = (double)c.rng() / 3; }
  snprintf(b, sizeof b, c.rnd(3) == 0 ? "%.17g" : c.rnd(2) ? "%.5e" : "%g", v); return b;
}
std::string put_file(vf::Case& c, const std::string& fn, const Input& in) {
  std::ofstream o(fn);
  o << "%%MatrixMarket matrix coordinate " << (in.val ? in.real ? "real" : "integer" : "pattern") << " " << (in.sym ? "symmetric" : "general") << "\n";
  for (unsigned k = c.rnd(4); k > 0; --k) o << (k & 1 ? "%\n" : "% 7 9 3 a comment\n");
  const char* sep[] = {" ", "  ", "\t"};
  o << in.rows << sep[c.rnd(3)] << in.cols << " " << in.g.e.size() << "\n";
  std::string s = "["; bool f = true; size_t left = in.g.e.size();
  for (auto& e : in.g.e) {
    --left;
    o << (c.rnd(8) ? "" : "  ") << e.u + 1 << sep[c.rnd(3)] << e.v + 1; std::string v;
    if (in.val) { v = number(c, in.real, e.w); o << sep[c.rnd(3)] << v; }
    if (c.rnd(5) == 0) o << " ";
    if (left || c.rnd(3)) o << "\n";
    if (!f) s += ','; f = false; s += "[" + std::to_string(e.u + 1) + "," + std::to_string(e.v + 1);
    if (in.val) { s += ','; vf::js(s, tok(strtod(v.c_str(), nullptr))); }
    s += ']';
  }
  return Ev("file").kv("rows", in.rows).kv("cols", in.cols).kv("sym", in.sym ? "symmetric" : "general").kv("val", in.val).raw("ents", s + "]").str();
}
void put(vf::Case& c, const char* what, const std::string& v) { Ev e("put"); e.raw(what, v); c.add(e); }
template <D d, class... At> auto read(vf::Case& c, const std::string& fn, bool stream, const char* how) {
  c.at(std::string("read ") + how);
  auto l = [&] { if (stream) { std::ifstream in(fn); return read_mm<d, At...>(in); } return read_mm<d, At...>(fn); }();
  double one = 1; c.add(Ev("read").kv("how", how).kv("dir", d == D::directed).kv("attr", (long)sizeof...(At)).kv("one", tok(one)).raw("l", list_js(l, d == D::directed)));
  return l;
}
template <size_t w, class T, class L> void write(vf::Case& c, const std::string& fn, L& l, const std::string& sym, bool dflt = false) {
  c.at("write list");
  constexpr size_t wi = w ? w + 1 : 0;
  if (dflt) write_mm<wi, T>(fn, l); else write_mm<wi, T>(fn, l, sym);
  c.add(Ev("write").kv("sym", sym).kv("w", (long)w).raw("f", parse(fn)));
}
template <size_t w, class T, int idx, class A> void write_adj(vf::Case& c, const std::string& fn, A& a, const std::string& sym, bool bi) {
  c.at("write adjacency");
  write_mm<w, T>(fn, a, sym);
  Ev e("writeadj"); e.kv("idx", idx).kv("sym", sym).kv("w", (long)w);
  if constexpr (requires { num_vertices(a, 1); }) { std::array<size_t, 2> n{num_vertices(a, 0), num_vertices(a, 1)}; e.kv("nvs", n); }
  c.add(e.raw("f", parse(fn)));
}
void meta(vf::Case& c, const std::string& fn, bool want) {
  c.at("is_mm"); Ev e("meta"); e.kv("want", want).kv("ismm", is_mm(fn)); if (want) e.kv("und", get_mm_symmetry(fn) == D::undirected); c.add(e);
}
// value type T: int for integer and pattern files, double for all
template <class T> void chain(const std::string& id, const Input& in, long var) {
  vf::run_case((std::is_same_v<T, int> ? "i/" : "d/") + id, [&](vf::Case& c) {
    std::string fn = vf::opt.out + ".mtx", f2 = vf::opt.out + ".2.mtx";
    std::string file = put_file(c, fn, in);
    auto reset = [&] { put(c, "f", file); };
    reset(); meta(c, fn, true);
    read<D::directed>(c, fn, var & 1, "directed pattern");
    read<D::undirected>(c, fn, var & 2, "undirected pattern");
    auto U = read<D::undirected, T>(c, fn, var & 1, "undirected values");
    // undirected list: written both ways and read back
    write<1, T>(c, f2, U, "symmetric"); meta(c, f2, true);
    { auto U2 = read<D::undirected, T>(c, f2, false, "undirected back"); write<0, void>(c, f2, U2, "symmetric"); read<D::undirected>(c, f2, true, "undirected pattern back"); }
    put(c, "l", list_js(U, false)); write<1, T>(c, f2, U, "general", var & 4); read<D::directed, T>(c, f2, false, "general back");
    put(c, "l", list_js(U, false)); write<1, T>(c, f2, U, "symmetric"); read<D::directed, T>(c, f2, false, "both orientations");
    reset();
    auto L = read<D::directed, T>(c, fn, var & 2, "directed values");
    write<1, T>(c, f2, L, "general", var & 1); { auto L2 = read<D::directed, T>(c, f2, true, "directed back"); write<0, void>(c, f2, L2, "general", var & 2); }
    read<D::directed, T>(c, f2, false, "pattern back");
    put(c, "l", list_js(L, true));
    { c.at("adjacency 0"); adjacency<0, T> a(L); write_adj<1, T, 0>(c, f2, a, "general", false); read<D::directed, T>(c, f2, false, "rows back"); }
    put(c, "l", list_js(L, true));
    { c.at("adjacency 1"); adjacency<1, T> a(L); write_adj<1, T, 1>(c, f2, a, "general", false); read<D::directed, T>(c, f2, false, "columns back"); }
    put(c, "l", list_js(U, false));
    { c.at("adjacency u"); adjacency<0, T> a(U); write_adj<0, void, 0>(c, f2, a, "general", false); }
    // the file as a bipartite graph
    if (!in.sym) { reset(); c.at("bipartite");
      { std::ifstream s(fn); std::string x; while (std::getline(s, x) && x[0] == '%') {}
        bi_edge_list<D::directed, T> b(in.rows, in.cols); mm_fill(s, b, in.g.e.size(), false, !in.val);
        c.add(Ev("read").kv("how", "bipartite").kv("dir", true).kv("attr", 1).kv("one", tok(1.0)).kv("nvs", b.num_vertices()).raw("l", list_js(b, true)));
        c.at("biadjacency"); biadjacency<0, T> a0(b); write_adj<1, T, 0>(c, f2, a0, "general", true); put(c, "l", list_js(b, true)); biadjacency<1, T> a1(b); write_adj<1, T, 1>(c, f2, a1, "general", true); write_adj<0, void, 1>(c, f2, a1, "general", true); }
      reset();
      { std::ifstream s(fn); std::string x; while (std::getline(s, x) && x[0] == '%') {}
        bi_edge_list<D::directed> b(in.rows, in.cols); mm_fill(s, b, in.g.e.size(), false, !in.val);
        c.add(Ev("read").kv("how", "bipartite pattern").kv("dir", true).kv("attr", 0).kv("one", "").kv("nvs", b.num_vertices()).raw("l", list_js(b, true))); } }
    unlink(fn.c_str()); unlink(f2.c_str());
  });
}
// the memory-mapped reader: header fields, and the entries read in pieces
template <class... Vs> void pieces(vf::Case& c, mmio::MatrixMarketFile& m, std::vector<long> cuts) {
  c.at("mapped pieces"); std::string s = "[";
  for (size_t k = 0; k + 1 < cuts.size(); ++k) {
    if (k) s += ','; s += '['; bool f = true; size_t seen = 0;
    for (auto&& e : mmio::edges<Vs...>(m, cuts[k], cuts[k + 1])) { if (++seen > (size_t)cuts.back() + 3) break; if (!f) s += ','; f = false; s += ent_js(std::tuple<int, int, Vs...>(e), true); }
    s += ']';
  }
  c.add(Ev("mapped").kv("rows", m.getNRows()).kv("cols", m.getNCols()).kv("nnz", m.getNEdges()).kv("pat", m.isPattern()).kv("issym", m.isSymmetric()).kv("n", (long)sizeof...(Vs)).kv("cuts", cuts).raw("pieces", s + "]"));
}
void mapped(const std::string& id, const Input& in, long var) {
  vf::run_case("map/" + id, [&](vf::Case& c) {
    std::string fn = vf::opt.out + ".mtx"; size_t m = in.g.e.size(); int nv = in.val ? 1 + (var % 3 == 0 && in.real) : 0;
    { std::ofstream o(fn); std::string s = "["; bool f = true; size_t left = m;
      o << "%%MatrixMarket matrix coordinate " << (nv == 2 ? "complex" : nv ? in.real ? "real" : "integer" : "pattern") << " " << (in.sym ? "symmetric" : "general") << "\n";
      for (unsigned k = c.rnd(4); k > 0; --k) o << (k & 1 ? "%\n" : "% 7 9 3 a comment\n");
      for (unsigned k = c.rnd(4) == 0 ? 1 + c.rnd(2) : 0; k > 0; --k) o << "\n";
      o << in.rows << " " << in.cols << (c.rnd(4) ? " " : "\t") << m << (c.rnd(5) ? "" : " ") << "\n";
      for (auto& e : in.g.e) {
        --left; if (c.rnd(8) == 0) o << "  ";
        o << e.u + 1 << (c.rnd(4) ? " " : "\t  ") << e.v + 1; s += f ? "[" : ",["; f = false; s += std::to_string(e.u + 1) + "," + std::to_string(e.v + 1);
        for (int k = 0; k < nv; ++k) { auto v = number(c, in.real, e.w + k); o << " " << v; s += ','; vf::js(s, tok(in.real ? strtod(v.c_str(), nullptr) : (double)atol(v.c_str()))); }
        s += ']'; if (c.rnd(6) == 0) o << std::string(1 + c.rnd(9), ' '); if (left) o << "\n";
      }
      if (m) for (unsigned k = c.rnd(4); k > 0; --k) o << (c.rnd(3) ? "\n" : " \n");
      // a file of whole pages: nothing follows it in memory
      if (c.rnd(4) == 0 && m) { long z = o.tellp(); o.close(); std::ifstream r(fn); std::stringstream b; b << r.rdbuf(); r.close(); std::string t = b.str(); size_t at = t.find('\n') + 1; while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); size_t pad = (4096 - t.size() % 4096) % 4096; if (pad >= 2) { std::string ins; while (pad > 902) { ins += "%" + std::string(898, 'x') + "\n"; pad -= 900; } ins += "%" + std::string(pad - 2, 'y') + "\n"; t.insert(at, ins); } std::ofstream w(fn); w << t; (void)z; }
      put(c, "f", Ev("file").kv("rows", in.rows).kv("cols", in.cols).kv("sym", in.sym ? "symmetric" : "general").kv("val", in.val).raw("ents", s + "]").str()); }
    c.at("map"); mmio::MatrixMarketFile f(fn);
    auto cuts = [&] { std::vector<long> k{0}; for (unsigned t = c.rnd(2) ? c.rnd(4) : c.rnd(12); t > 0 && m; --t) k.push_back(c.rnd(m + 1)); k.push_back(m); std::sort(k.begin(), k.end()); return k; };
    pieces<>(c, f, {0, (long)m}); pieces<>(c, f, cuts());
    { std::vector<long> each; for (size_t k = 0; k <= m && k <= 60; ++k) each.push_back(k == 60 ? (long)m : (long)k); if (each.back() != (long)m) each.push_back(m); if (each.size() == 1) each.push_back(m); pieces<>(c, f, each); }
    if (nv == 1 && !in.real) { pieces<int>(c, f, cuts()); pieces<double>(c, f, cuts()); pieces<long>(c, f, cuts()); }
    if (nv == 1 && in.real) pieces<double>(c, f, cuts());
    if (nv == 2) { pieces<double, double>(c, f, cuts()); pieces<double>(c, f, cuts()); }
    c.at("release"); if (var & 1) { f.release(); if (var & 2) release(f); }
    unlink(fn.c_str());
  });
}
// lists with two attributes: either one can be written
void twoattr(const std::string& id, const vf::G& g) {
  vf::run_case("two/" + id, [&](vf::Case& c) {
    std::string f2 = vf::opt.out + ".2.mtx";
    auto go = [&]<D d>(std::integral_constant<D, d>) {
      edge_list<d, int, double> l(g.n); l.open_for_push_back(); for (auto& e : g.e) l.push_back(e.u, e.v, e.w, (c.rnd(2) ? 1 : -1) * 1.0 / (3 + c.rnd(1000))); l.close_for_push_back();
      put(c, "l", list_js(l, d == D::directed)); write<1, int>(c, f2, l, "general");
      put(c, "l", list_js(l, d == D::directed)); write<2, double>(c, f2, l, "general", true); read<D::directed, double>(c, f2, false, "second attribute");
      put(c, "l", list_js(l, d == D::directed)); c.at("adjacency"); adjacency<1, int, double> a(l); write_adj<2, double, 1>(c, f2, a, "general", false); write_adj<1, int, 1>(c, f2, a, "symmetric", false);
    };
    go(std::integral_constant<D, D::directed>{}); go(std::integral_constant<D, D::undirected>{});
    unlink(f2.c_str());
    // a vector file: 1-based ids
    c.at("vector"); { std::ofstream o(f2); bool real = g.n & 1; o << "%%MatrixMarket matrix array " << (real ? "real" : "integer") << " general\n"; if (g.e.size() & 1) o << "% ids\n";
      std::vector<long> want; o << g.e.size() << " 1\n"; for (auto& e : g.e) { o << (e.u + 1) << (real ? ".0" : "") << "\n"; want.push_back(e.u); }
      o.close(); auto got = read_mm_vector<uint32_t>(f2); auto g2 = [&] { std::ifstream s(f2); return read_mm_vector<size_t>(s); }();
      c.add(Ev("vector").kv("want", want).kv("got", got)); c.add(Ev("vector").kv("want", want).kv("got", g2)); }
    c.at("is_mm"); { std::ofstream o(f2); o << "0 1\n1 2\n"; o.close(); c.add(Ev("meta").kv("want", false).kv("ismm", is_mm(f2))); }
    unlink(f2.c_str());
  });
}
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  each_graph(Shape{.maxn = 14, .maxm = 40, .bign = 400, .bigm = 700}, [&](const std::string& id, const G& g, long k) {
    Input in; in.g = g; in.real = (k / 2) & 1;
    if (g.ops.size() >= 4) { in.rows = g.ops[0]; in.cols = g.ops[1]; in.sym = g.ops[2]; in.val = g.ops[3]; }
    else { in.rows = in.cols = g.n; in.sym = k & 1; in.val = k & 4; if (!in.sym) { if (k % 3 == 1) in.rows = g.n + 1 + k % 4; if (k % 3 == 2) in.cols = g.n + 1 + k % 5; } }
    chain<double>(id, in, k);
    mapped(id, in, k);
    in.real = false; chain<int>(id, in, k); if (in.val) mapped("i" + id, in, k);
    if (k % 3 == 0) twoattr(id, g);
  });
}
