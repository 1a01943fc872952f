// The benchmark drivers (bench/) and what they share: the programs are run, in process, on generated files and options,
// and what they print is recorded.
#include "alg.hpp"
#include "common.hpp"
#include <unistd.h>
#define main prog
#ifndef VF_SCHED
#if PART == 1
#include "tc.cpp"
#elif PART == 2
#include "cc.cpp"
#elif PART == 3
#include "bfs.cpp"
#elif PART == 4
#include "sssp.cpp"
#elif PART == 5
#include "pr.cpp"
#elif PART == 6
#include "bc.cpp"
#elif PART == 7
#include "SourceVerifier.cpp"
#define USAGE process_usage
#undef main
#define main process_prog
#include "ProcessEdgelist.cpp"
#endif
#endif
#undef main
using namespace nw::graph;
namespace vf::drv {
using vf::Ev; using vf::G; using D = directedness;
using Ids = std::vector<long>; using Strings = std::vector<std::string>;
struct File { G g; bool sym, val; std::string name, stem; };
// ---- files
std::string put_file(const File& f) {
  std::ofstream o(f.name);
  o << "%%MatrixMarket matrix coordinate " << (f.val ? "integer " : "pattern ") << (f.sym ? "symmetric" : "general") << "\n" << f.g.n << " " << f.g.n << " " << f.g.e.size() << "\n";
  std::string s = "["; bool first = true;
  for (auto& e : f.g.e) {
    o << e.u + 1 << " " << e.v + 1; if (f.val) o << " " << e.w; o << "\n";
    if (!first) s += ','; first = false; s += "[" + std::to_string(e.u + 1) + "," + std::to_string(e.v + 1) + (f.val ? "," + std::to_string(e.w) : "") + "]";
  }
  return Ev("file").kv("rows", f.g.n).kv("cols", f.g.n).kv("sym", f.sym ? "symmetric" : "general").kv("val", f.val).raw("ents", s + "]").str();
}
void put_sources(const std::string& name, const Ids& v) { std::ofstream o(name); o << "%%MatrixMarket matrix array integer general\n" << v.size() << " 1\n"; for (auto x : v) o << x + 1 << "\n"; }
template <class L> std::string recs(const L& l) { std::string s = "["; bool f = true; for (auto it = l.begin(); it != l.end(); ++it) { if (!f) s += ','; f = false; vf::js(s, typename L::element(*it)); } return s + "]"; }
// ---- running something that prints
struct Capture {
  std::stringstream out, err; std::streambuf *o, *e;
  Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
struct Output { Strings lines, errs; };
template <class F> Output capture(F&& f) {
  Capture c; f(); Output r; std::string l;
  while (std::getline(c.out, l)) r.lines.push_back(l);
  while (std::getline(c.err, l)) r.errs.push_back(l);
  return r;
}
Strings words(const std::string& l) { std::stringstream s(l); Strings r; std::string w; while (s >> w) r.push_back(w); return r; }
bool starts(const std::string& l, const char* p) { return l.rfind(p, 0) == 0; }
long micro(const std::string& s) { return std::lround(std::stod(s) * 1e6); }
// ---- what several programs print
std::string table(const Output& o, bool named = false) {
  std::string s = "["; bool in = false, f = true;
  for (auto& l : o.lines) {
    if (starts(l, "File ")) { in = true; continue; }
    if (!in) continue;
    auto w = words(l); if (w.size() != 6) break;
    if (!f) s += ','; f = false; s += '[';
    if (named) { vf::js(s, w[0]); s += ','; }
    s += w[1] + "," + w[2] + "," + std::to_string(micro(w[3])) + "," + std::to_string(micro(w[4])) + "," + std::to_string(micro(w[5])) + "]";
  }
  return s + "]";
}
long complaints(const Output& o, bool errors = true) {
  long n = 0; static const char* bad[] = {"wrong", "couldn't", "mismatch", "fail", "inconsist", "!=", "unvisited", "error", "unknown", "invalid", "did not", "bad "};
  auto look = [&](const Strings& ls) { for (auto l : ls) { for (auto& x : l) x = std::tolower(x); if (starts(l, "fatal: not a git") ) continue; for (auto b : bad) if ((errors || std::string(b) != "error") && l.find(b) != l.npos) { ++n; break; } } };
  look(o.lines); look(o.errs); return n;
}
// log lines are read from the right: some columns on the left may be empty
void log_lines(Ev& e, const Output& o, const char* bench, size_t extra) {
  std::string s = "[", t = "["; bool f = true;
  for (auto& l : o.lines) {
    auto w = words(l); if (w.size() < 7 + extra || std::find(w.begin(), w.end(), "NWGRAPH") == w.end()) continue;
    size_t k = w.size() - extra; if (w[k - 4] != bench || w[k - 3][0] != 'v') continue;
    if (!f) s += ',', t += ','; f = false;
    s += "[" + w[k - 3].substr(1) + "," + w[k - 2]; s += "]"; vf::js(t, w[k - 1]);
  }
  e.raw("log", s + "]").raw("stems", t + "]");
}
struct Options { Strings args; Ids ids, threads; long trials = 1, iterations = 1; bool logged = false; };
Options options(vf::Case& c, const Ids& ids, const std::string& file, bool iterations = false) {
  Options o; for (long x : ids) if (c.rnd(3) || o.ids.empty()) o.ids.push_back(x);
  std::shuffle(o.ids.begin(), o.ids.end(), c.rng);
  for (long x : o.ids) { o.args.push_back("--version"); o.args.push_back(std::to_string(x)); }
  if (c.rnd(2)) { o.trials = 1 + c.rnd(3); o.args.push_back("-n"); o.args.push_back(std::to_string(o.trials)); }
  if (iterations && c.rnd(2)) { o.iterations = 1 + c.rnd(3); o.args.push_back("-i"); o.args.push_back(std::to_string(o.iterations)); }
  if (c.rnd(4) == 0) { o.logged = true; o.args.insert(o.args.end(), {"--log", "-"}); if (c.rnd(2)) o.args.push_back("--log-header"); }
  if (c.rnd(8)) for (long t : {1, 2, 3, 4, 8}) if (c.rnd(5) < 2) o.threads.push_back(t);
  std::shuffle(o.threads.begin(), o.threads.end(), c.rng);
  return o;
}
template <class F> Output run(F&& f, const char* name, Strings a, const Options& o, const Strings& before = {}) {
  a.insert(a.begin(), before.begin(), before.end()); a.insert(a.end(), o.args.begin(), o.args.end()); for (long t : o.threads) a.push_back(std::to_string(t));
  a.insert(a.begin(), name); std::vector<char*> argv; for (auto& x : a) argv.push_back(x.data()); argv.push_back(nullptr);
  return capture([&] { f((int)a.size(), argv.data()); });
}
void common(Ev& e, const Options& o, const Output& out, const File& f, const char* bench, size_t extra, bool errors = true) {
  auto th = o.threads; if (th.empty()) th.push_back(bench::get_n_threads());
  e.kv("ids", o.ids).kv("threads", th).kv("trials", o.trials).kv("iterations", o.iterations).kv("complaints", complaints(out, errors)).raw("table", table(out)).kv("logged", o.logged).kv("stem", f.stem);
  log_lines(e, out, bench, extra);
}
// sources: a vertex, a file, or random ones
Strings choose_sources(vf::Case& c, const File& f, long n, Ids& given) {
  Strings a; bool edges = f.g.e.size();
  switch (edges ? c.rnd(4) : c.rnd(2)) {
    case 0: given.assign(n, c.rnd(f.g.n)); a = {"-r", std::to_string(given[0])}; break;
    case 1: for (long j = 0; j < n; ++j) given.push_back(c.rnd(f.g.n)); put_sources("src-" + f.name, given); a = {"-s", "src-" + f.name}; break;
    case 2: a = {"--seed", std::to_string(c.rnd(100000))}; break;
    default: break;
  }
  return a;
}
// ---- cases
#if IN_PART(0) || defined(VF_SCHED)
template <int idx, class A> void degrees(vf::Case& c, const A& a, long m) {
  c.at("build_degrees");
  auto d = vf::threads(vf::some_threads(c), [&] { vf::Quiet q; return bench::build_degrees(a); });
  c.add(Ev("degrees").kv("idx", idx).kv("deg", d));
  if (!m) return;
  long n = 1 + c.rnd(6), seed = c.rnd(1000);
  c.at("build_random_sources");
  auto x = vf::threads(vf::some_threads(c), [&] { vf::Quiet q; return bench::build_random_sources(a, n, seed); });
  auto y = vf::threads(vf::some_threads(c), [&] { vf::Quiet q; return bench::build_random_sources(a, n, seed); });
  c.add(Ev("sources").kv("idx", idx).kv("n", n).kv("seed", seed).kv("src", x).kv("again", y));
}
template <D d, class... At> auto load(vf::Case& c, const std::string& fn) {
  c.at("load_graph"); auto l = [&] { vf::Quiet q; return bench::load_graph<d, At...>(fn); }();
  c.add(Ev("load").kv("dir", d == D::directed).kv("attr", (long)sizeof...(At)).kv("nv", (size_t)l.num_vertices()[0]).raw("recs", recs(l)));
  return l;
}
void one(vf::Case& c, const File& f) {
  auto l = load<D::directed>(c, f.name); auto lw = load<D::directed, int>(c, f.name); auto u = load<D::undirected>(c, f.name); load<D::undirected, int>(c, f.name);
  { c.at("serialize"); lw.serialize("bin-" + f.name); load<D::directed, int>(c, "bin-" + f.name); l.serialize("bin-" + f.name); load<D::directed>(c, "bin-" + f.name); u.serialize("bin-" + f.name); load<D::undirected>(c, "bin-" + f.name); unlink(("bin-" + f.name).c_str()); }
  c.at("build_adjacency");
  auto a0 = [&] { vf::Quiet q; return bench::build_adjacency<0>(l, c.rnd(2)); }(); auto a1 = [&] { vf::Quiet q; return bench::build_adjacency<1>(l, c.rnd(2)); }(); auto w0 = [&] { vf::Quiet q; return bench::build_adjacency<0>(lw); }();
  degrees<0>(c, a0, l.size()); degrees<1>(c, a1, l.size()); degrees<0>(c, w0, l.size());
  Ids given; for (long j = 1 + c.rnd(9); j > 0; --j) given.push_back(c.rnd(f.g.n)); put_sources("src-" + f.name, given);
  c.at("load_sources_from_file"); auto got = bench::load_sources_from_file(a0, "src-" + f.name, c.rnd(2) ? given.size() : 0); c.add(Ev("file_sources").kv("given", given).kv("got", got)); unlink(("src-" + f.name).c_str());
  c.at("Times"); std::string adds = "["; bench::Times<int> t; bool first = true;
  for (int k = 1 + c.rnd(12); k > 0; --k) {
    std::string fn(1 + c.rnd(3) * 7, 'a' + c.rnd(2)); long id = c.rnd(3), th = 1 + c.rnd(2), us = c.rnd(3) ? c.rnd(20) : c.rnd(100000000);
    t.append(fn, id, th, us / 1e6, 7); if (!first) adds += ','; first = false; adds += "["; vf::js(adds, fn); adds += "," + std::to_string(id) + "," + std::to_string(th) + "," + std::to_string(us) + "]";
  }
  auto out = capture([&] { t.print(std::cout); });
  c.add(Ev("times").raw("adds", adds + "]").raw("rows", table(out, true)));
}
#elif PART == 1
void one(vf::Case& c, const File& f) {
  static const char* formats[] = {"CSR", "CSR", "VOV", "VOL"};
  bool lower = c.rnd(4) == 0; auto o = options(c, lower ? Ids{0, 2, 3, 6, 10, 11, 13, 14} : Ids{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, f.name); bool verify = c.rnd(4);
  for (size_t k = 0; k < o.args.size(); ++k) if (o.args[k] == "--log") { o.args.erase(o.args.begin() + k, o.args.begin() + k + 2); break; }
  Strings a{"-f", f.name, "-V", "--log", "-", "--format", formats[c.rnd(4)]};
  if (verify) a.push_back("-v"); if (lower) a.push_back("--lower"); else if (c.rnd(2)) a.push_back("--upper");
  if (c.rnd(2)) { a.push_back("--relabel"); if (c.rnd(2)) a.push_back("--heuristic"); }
  c.at("tc.exe"); auto out = run(prog, "tc.exe", a, o);
  Ids verified; std::string s = "["; bool first = true;
  for (auto& l : out.lines) {
    if (starts(l, "verifier reports")) verified.push_back(std::stol(words(l)[2]));
    if (!starts(l, "{")) continue;
    auto j = json::parse(l);
    for (auto& file : j["Files"]) for (auto& th : file["Runs"]) for (auto& id : th["runs"]) for (auto& r : id["runs"]) {
      if (!first) s += ','; first = false;
      s += "[" + std::to_string((long)r["id"]) + "," + std::to_string((long)r["num_threads"]) + "," + std::to_string((long)r["trial"]) + "," + std::to_string((long)r["triangles"]) + "]";
    }
  }
  auto th = o.threads; if (th.empty()) th.push_back(bench::get_n_threads());
  std::erase_if(out.lines, [](auto& l) { return starts(l, "{"); });
  c.add(Ev("tc").kv("ids", o.ids).kv("threads", th).kv("trials", o.trials).kv("complaints", complaints(out)).kv("verify", verify).kv("verified", verified).raw("results", s + "]"));
}
#elif PART == 2
void one(vf::Case& c, const File& f) {
  bool sym = c.rnd(3); auto o = options(c, sym ? Ids{0, 1, 5, 6, 7, 8, 9, 10} : Ids{0, 7}, f.name);
  Strings a{sym ? "-s" : "-f", f.name, "-vV"};
  if (c.rnd(2)) { a.push_back("--relabel"); if (c.rnd(2)) a.insert(a.end(), {"--direction", c.rnd(2) ? "ascending" : "descending"}); }
  if (c.rnd(2)) { a.push_back("--clean"); if (c.rnd(2)) a.insert(a.end(), {"--succession", c.rnd(2) ? "successor" : "predecessor"}); }
  c.at("cc.exe"); auto out = run(prog, "cc.exe", a, o);
  Ids n; std::string s = "["; long left = 0; bool f1 = true, f2 = true;
  for (auto& l : out.lines) {
    auto w = words(l);
    if (left > 0 && w.size() == 2) { if (!f2) s += ','; f2 = false; s += "[" + std::to_string(std::stol(w[0])) + "," + w[1] + "]"; if (--left == 0) s += "]"; continue; }
    if (l.find("biggest clusters") != l.npos) { left = std::stol(w[0]); if (!f1) s += ','; f1 = false; f2 = true; s += left ? "[" : "[]"; }
    if (starts(l, "There are ") && l.find("components") != l.npos) n.push_back(std::stol(w[2]));
  }
  if (left > 0) s += "]";
  Ev e("cc"); common(e, o, out, f, "cc", 2); c.add(e.kv("sym", sym).kv("ncomp", n).raw("sizes", s + "]"));
}
#elif PART == 3
void one(vf::Case& c, const File& f) {
  auto o = options(c, Ids{0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13}, f.name); if (!o.logged) o.args.insert(o.args.end(), {"--log", "-"}), o.logged = true;
  Ids given; auto a = choose_sources(c, f, o.trials, given); Strings b{"-f", f.name, c.rnd(2) ? "-v" : "-vV"}; b.insert(b.end(), a.begin(), a.end());
  static const char* few[] = {"1", "2", "3", "32", "1000"};
  for (const char* x : {"-a", "-b", "-B"}) if (c.rnd(2)) b.insert(b.end(), {x, x[1] == 'B' ? few[c.rnd(4)] : few[c.rnd(5)]});
  c.at("bfs.exe"); auto out = run(prog, "bfs.exe", b, o);
  Ids used; Ev e("bfs"); common(e, o, out, f, "bfs", 2);
  // the log is ordered by version and number of threads, not as run: within one combination by trial
  for (auto& l : out.lines) { auto w = words(l); if (w.size() > 8 && std::find(w.begin(), w.end(), "NWGRAPH") != w.end()) used.push_back(std::stol(w.back())); }
  c.add(e.kv("idx", 1).kv("given", given).kv("used", used));
}
#elif PART == 4
void one(vf::Case& c, const File& f) {
  auto o = options(c, Ids{0, 1, 9, 10, 11, 12, 13}, f.name, true); Ids given; auto a = choose_sources(c, f, o.trials * o.iterations, given);
  Strings b{"-f", f.name, "-vV", "-d", std::to_string(1 + c.rnd(12))}; b.insert(b.end(), a.begin(), a.end());
  c.at("sssp.exe"); auto out = run(prog, "sssp.exe", b, o);
  Ids used; for (auto& l : out.lines) if (starts(l, "iteration: ")) used.push_back(std::stol(words(l)[3]));
  Ev e("sssp"); common(e, o, out, f, "sssp", 1); c.add(e.kv("idx", 0).kv("given", given).kv("used", used));
}
#elif PART == 5
void one(vf::Case& c, const File& f) {
  auto o = options(c, Ids{1, 2, 4, 6, 8, 9, 10, 11, 14}, f.name); std::string tol = c.rnd(2) ? "1e-4" : "1e-3";
  c.at("pr.exe"); auto out = run(prog, "pr.exe", {"-f", f.name, "-i", "1000", "-t", tol, "-v"}, o);
  std::string s = "["; bool in = false, f1 = true, f2 = true;
  for (auto& l : out.lines) {
    if (l == "Verifying") { if (in) s += "]"; if (!f1) s += ','; f1 = false; f2 = true; in = true; s += "["; continue; }
    auto w = words(l); if (!in || w.size() != 2 || w[0].back() != ':') { if (in) s += "]"; in = false; continue; }
    if (!f2) s += ','; f2 = false; s += "[" + std::to_string(std::stol(w[0])) + "," + std::to_string(micro(w[1])) + "]";
  }
  if (in) s += "]";
  Ev e("pr"); common(e, o, out, f, "pr", 1, false); c.add(e.kv("thr", micro(tol)).raw("ranks", s + "]"));
}
#elif PART == 6
void one(vf::Case& c, const File& f) {
  bool verify = c.rnd(3);    // versions 1 and 7 leave the source out of the scores, the verifier and the others do not
  auto o = options(c, verify ? Ids{0, 3, 4, 5} : Ids{0, 1, 3, 4, 5, 7}, f.name, true); Ids given; auto a = choose_sources(c, f, o.trials * o.iterations, given);
  Strings b{"-f", f.name};
  if (verify) b.push_back(c.rnd(2) ? "-v" : "-vV"); b.insert(b.end(), a.begin(), a.end());
  c.at("bc.exe"); auto out = run(prog, "bc.exe", b, o);
  Ev e("bc"); common(e, o, out, f, "bc", 1); c.add(e);
}
#elif PART == 7
void one(vf::Case& c, const File& f) {
  Options o; c.at("process_edge_list");
  run(process_prog, "process_edge_list", {"-d", "d-" + f.name, "-u", "u-" + f.name, f.name}, o);
  auto l = [&] { vf::Quiet q; return bench::load_graph<D::directed, int>("d-" + f.name); }(); auto u = [&] { vf::Quiet q; return bench::load_graph<D::undirected, int>("u-" + f.name); }();
  c.add(Ev("load").kv("dir", true).kv("attr", 1).kv("nv", (size_t)l.num_vertices()[0]).raw("recs", recs(l)));
  c.add(Ev("load").kv("dir", false).kv("attr", 1).kv("nv", (size_t)u.num_vertices()[0]).raw("recs", recs(u)));
  if (f.g.e.empty()) return;
  c.at("sources");
  for (int k = 0; k < 2; ++k) {
    long n = 1 + c.rnd(3), i = 1 + c.rnd(3), seed = c.rnd(1000); Ids given; auto a = [&] { vf::Quiet q; auto p = bench::load_graph<D::directed>(f.name); return bench::build_adjacency<1>(p); }();
    if (k) { vf::Quiet q; for (auto x : bench::build_random_sources(a, n * i, seed)) given.push_back(x); } else for (long j = 0; j < n * i; ++j) given.push_back(c.rnd(f.g.n));
    put_sources("src-" + f.name, given);
    auto out = run(prog, "sources", {"-f", f.name, "-s", "src-" + f.name, "-i", std::to_string(i), "-n", std::to_string(n), "--seed", std::to_string(seed)}, o);
    long failures = -1; std::string s = "["; bool first = true;
    for (auto& x : out.lines) if (x.find(" failures") != x.npos) failures = std::stol(x);
    for (auto& x : out.errs) { long p, q; if (sscanf(x.c_str(), "sources[i]=%ld but random[i]=%ld", &p, &q) == 2) { if (!first) s += ','; first = false; s += "[" + std::to_string(p) + "," + std::to_string(q) + "]"; } }
    c.add(Ev("compare").kv("own", k == 1).kv("given", given).kv("failures", failures).raw("diff", s + "]"));
  }
}
#endif
}    // namespace vf::drv
namespace vf { using namespace drv; }
void vf::run() {
  auto go = [&](const std::string& id, G g, long k) {
    if (!g.n) return;
    run_case(id, [&](Case& c) {
      File f; f.g = g; f.val = PART == 4 || (PART == 7 && c.rnd(2)) || (PART < 1 && c.rnd(2)); f.sym = c.rnd(4) == 0 && !(PART == 5 && false);
      if (f.sym) { for (auto& e : f.g.e) if (e.u < e.v) std::swap(e.u, e.v); std::set<std::pair<unsigned, unsigned>> s; std::erase_if(f.g.e, [&](auto& e) { return !s.insert({e.u, e.v}).second; }); }
      std::string base = "g" + std::to_string(getpid()); f.stem = base; f.name = base + (c.rnd(2) ? "_x" : "") + ".mtx";
      std::string head = put_file(f); c.head += ",\"file\":" + head;
      one(c, f);
      for (const char* p : {"", "src-", "d-", "u-"}) unlink((p + f.name).c_str());
    });
  };
  long k = 0;
  if (!opt.cases.empty()) for (auto& b : read_groups(opt.cases)) { G g; g.n = b[0][0]; for (size_t j = 1; j < b.size(); ++j) g.e.push_back({(unsigned)b[j][0], (unsigned)b[j][1], (int)b[j][2]}); go("g" + std::to_string(k), g, k); ++k; }
  Rng r(opt.seed);
  for (long j = 0; j < opt.count; ++j) { unsigned mx = extra("maxn", 12); G g = random_graph(r, mx, rn(r, 5) ? 30 : 160, true, true, 9, 1); go("r" + std::to_string(j) + g.cls, g, j); }
  for (long j = 0; j < extra("big"); ++j) { G g = large_graph(r, 30 + rn(r, 60), 100 + rn(r, 300)); go("large" + std::to_string(j), g, j); }
}
