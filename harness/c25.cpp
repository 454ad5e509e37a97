// The benchmark drivers end to end: command line, input files, every version on several thread counts, verification,
// the table of times and the log, in one simulated machine.
#include "mm.h"
#include "common.hpp"
#include <iostream>
#include <set>
using namespace h;
int drv_bfs_main(int, char**);
int drv_bc_main(int, char**);
int drv_cc_main(int, char**);
int drv_pr_main(int, char**);
int drv_sssp_main(int, char**);
int drv_tc_main(int, char**);
int drv_conv_main(int, char* const*);
int drv_src_main(int, char* const*);
namespace {
constexpr auto D = directedness::directed, U = directedness::undirected;
struct Out {   // what the driver prints
  std::ostringstream o;
  std::streambuf *   a, *b;
  Out() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
  void off() { if (a) { std::cout.rdbuf(a); std::cerr.rdbuf(b); a = nullptr; } }
  ~Out() { off(); }
};
int start(int (*f)(int, char* const*), const std::vector<std::string>& args) {
  std::vector<char*> v;
  for (auto& a : args) v.push_back(const_cast<char*>(a.c_str()));
  v.push_back(nullptr);
  return f((int)args.size(), v.data());
}
int start(int (*f)(int, char**), const std::vector<std::string>& args) { return start((int (*)(int, char* const*))f, args); }
// The input graph as a file: listed pairs, integer weights from 0 up.
std::string graph_text(const Gr& g, bool symmetric, bool weights) {
  std::string t = std::string("%%MatrixMarket matrix coordinate ") + (weights ? "integer" : "pattern") + (symmetric ? " symmetric\n%\n" : " general\n");
  t += std::to_string(g.n) + " " + std::to_string(g.n) + " " + std::to_string(g.e.size()) + "\n";
  for (auto& a : g.e) t += std::to_string(a.u + 1) + " " + std::to_string(a.v + 1) + (weights ? " " + std::to_string(a.w) : "") + "\n";
  return t;
}
template <directedness d, class... A>
void serialized(const Gr& g, const char* f) {
  edge_list<d, A...> el(g.n);
  for (auto& a : g.e) el.push_back(a.u, a.v, (A)a.w...);
  el.close_for_push_back();
  el.serialize(std::string(f));
}
using Key = std::tuple<std::string, long, long>;
// The table: one row for every configuration, and times that passed.
void check_table(const char* drv, const std::string& out, const std::set<Key>& want, double elapsed) {
  std::istringstream in(out);
  std::string l;
  bool table = false;
  std::set<Key> got;
  while (std::getline(in, l)) {
    std::istringstream w(l);
    std::string f, a;
    if (!table) { w >> f >> a; table = f == "File" && a == "Version"; continue; }
    long id = -1, thr = -1; double mn = -1, av = -1, mx = -1;
    if (!(w >> f >> id >> thr >> mn >> av >> mx)) continue;
    if (!got.insert({f, id, thr}).second) sim::violation("table", "%s: two rows for version %ld on %ld threads", drv, id, thr);
    if (!(mn >= 0 && mn <= av + 1e-6 && av <= mx + 1e-6 && mx <= elapsed + 1e-6)) sim::violation("table", "%s: times %g %g %g printed, %g passed in all", drv, mn, av, mx, elapsed);
  }
  if (!table) sim::violation("table", "%s prints no table of times", drv);
  if (got != want) sim::violation("table", "%s: the table has %zu rows, %zu configurations were run", drv, got.size(), want.size());
}
void check_log(const char* drv, const char* f, const std::set<Key>& want, std::size_t samples, bool header) {
  std::size_t n = sim::disk_size(f);
  if (n == (std::size_t)-1) sim::violation("log", "%s wrote no log", drv);
  std::istringstream in(std::string((const char*)sim::disk_data(f), n));
  std::string l;
  std::size_t rows = 0, heads = 0;
  while (std::getline(in, l)) {
    std::istringstream w(l);
    std::vector<std::string> t;
    for (std::string x; w >> x;) t.push_back(x);
    if (t.empty()) continue;
    if (t[0] == "UUID") { heads++; continue; }
    rows++;
    // the columns before the branch and revision can be empty: count from the benchmark's name
    auto it = std::find(t.begin(), t.end(), std::string(drv));
    if (it == t.end() || t.end() - it < 4) sim::violation("log", "%s: log row \"%s\"", drv, l.c_str());
    bool known = false;
    for (auto& [file, id, thr] : want) known |= it[1] == "v" + std::to_string(id) && it[2] == std::to_string(thr);
    if (!known) sim::violation("log", "%s: log row for version %s on %s threads, which was not run", drv, it[1].c_str(), it[2].c_str());
  }
  if (rows != samples || heads != (header ? 1 : 0)) sim::violation("log", "%s: the log has %zu rows and %zu headers after %zu trials", drv, rows, heads, samples);
}
std::size_t triangles(const Gr& g) {
  std::vector<std::set<u32>> a(g.n);
  for (auto& e : g.e) if (e.u != e.v) { a[std::min(e.u, e.v)].insert(std::max(e.u, e.v)); }
  std::size_t t = 0;
  for (u32 u = 0; u < g.n; u++)
    for (u32 v : a[u])
      for (u32 w : a[v]) t += a[u].count(w);
  return t;
}
std::string lines_with(const std::string& out, std::initializer_list<const char*> words) {
  std::istringstream in(out);
  std::string l;
  while (std::getline(in, l))
    for (auto w : words) if (l.find(w) != std::string::npos) return l;
  return "";
}
enum Drv { BFS, BC, CC, PR, SSSP, TC, NDRV };
void driver(int tier) {
  sim::disk_reset();
  const char *F = "/sim/graph.mtx", *L = "/sim/log.txt", *S = "/sim/sources.mtx";
  static const int pick[] = {BFS, BFS, BC, BC, CC, CC, CC, PR, PR, SSSP, SSSP, TC, TC};
  int drv = pick[sim::wl(13)];
  static const char* names[] = {"bfs", "bc", "cc", "pr", "sssp", "tc"};
  const char* name = names[drv];
  sim::probe(name);
  GenOpts o;
  o.small = 10; o.medium = 24; o.large = tier ? 80 : 45;
  if (drv == SSSP) { static const u32 mw[] = {3, 20, 300}; o.maxw = mw[sim::wl(3)]; }
  Gr g = gen_graph(o);
  if (g.e.empty()) g.e.push_back({0, g.n - 1, 1});
  note_graph(g, drv == SSSP);
  bool undirected = drv == TC || (drv == CC && sim::wl(2)), bin = sim::wl(3) == 0;
  bool weights = drv == SSSP || (drv != PR && sim::wl(4) == 0);
  if (bin) {
    if (drv == SSSP) serialized<D, int>(g, F); else if (undirected) serialized<U>(g, F); else serialized<D>(g, F);
  } else {
    std::string t = graph_text(g, undirected && sim::wl(2), weights);
    sim::disk_put(F, t.data(), t.size());
  }
  std::size_t fsize = sim::disk_size(F);
  // what the driver is asked to do
  static const std::vector<std::vector<long>> all = {
      {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13}, {5, 0, 3, 4, 1, 2, 6, 7, 8}, {7, 0, 1, 2, 6, 8, 9, 5, 10, 11},
      {1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14}, {0, 1, 6, 8, 9, 10, 11, 12, 13}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}};
  std::size_t nall = all[drv].size();
  if (drv == CC && !undirected) nall = 7;   // the others need a symmetric graph
  std::vector<long> ids, thr;
  u32 nid = 1 + (u32)sim::wl(3), nthr = 1 + (u32)sim::wl(2);
  while (ids.size() < nid) { long id = all[drv][sim::wl(nall)]; if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id); }
  while (thr.size() < nthr) { long t = 1 + (long)sim::wl(6); if (std::find(thr.begin(), thr.end(), t) == thr.end()) thr.push_back(t); }
  bool verify = sim::wl(4) != 0, verbose = sim::wl(4) == 0, log = sim::wl(3) == 0, header = sim::wl(2), debug = sim::wl(6) == 0;
  if (drv == BC) for (long id : ids) if (id == 1 || id == 2 || id == 6 || id == 7 || id == 8) verify = false;   // other sources, or the source's own score left out
  long trials = 1 + (long)sim::wl(2), iterations = 1;
  std::vector<std::string> a{std::string(name) + ".exe", "-f", F};
  if (drv == CC && undirected) a[1] = "-s";
  for (long id : ids) { a.push_back("--version"); a.push_back(std::to_string(id)); }
  a.push_back("-n"); a.push_back(std::to_string(trials));
  if (verify) a.push_back("-v");
  if (verbose) a.push_back("-V");
  if (debug) a.push_back("--debug");
  if (log) { a.push_back("--log"); a.push_back(L); if (header && drv != TC) a.push_back("--log-header"); }
  auto opt = [&](const char* k, long v) { a.push_back(k); a.push_back(std::to_string(v)); };
  if (drv == BFS && sim::wl(2)) { static const long al[] = {1, 3, 15, 100}; opt("-a", al[sim::wl(4)]); opt("-b", al[sim::wl(4)]); opt("-B", 1l << sim::wl(6)); }
  if (drv == BC || drv == SSSP) { iterations = 1 + (long)sim::wl(3); opt("-i", iterations); }
  if (drv == SSSP) { static const long dl[] = {2, 1, 5, 40, 1000}; opt("--delta", dl[sim::wl(5)]); }
  if (drv == PR) { opt("-i", 1 + (long)sim::wl(12)); if (sim::wl(2)) { a.push_back("-t"); a.push_back(sim::wl(2) ? "1e-6" : "0.01"); } }
  if (drv == BFS || drv == BC || drv == SSSP) {
    int how = (int)sim::wl(3);
    if (how == 1) opt("-r", (long)sim::wl(g.n));
    if (how == 2) {
      long k = drv == BFS ? 1 + (long)sim::wl(3) : trials * iterations;
      if (drv == BFS) trials = k;
      std::string t = "%%MatrixMarket matrix array integer general\n" + std::to_string(k) + " 1\n";
      for (long i = 0; i < k; i++) t += std::to_string(1 + sim::wl(g.n)) + "\n";
      sim::disk_put(S, t.data(), t.size());
      a.push_back("--sources"); a.push_back(S);
    }
    if (!how && sim::wl(2)) opt("--seed", (long)sim::wl(100000));
  }
  if (drv == CC || drv == TC) if (sim::wl(3) == 0) a.push_back("--relabel");
  if (drv == CC) {
    if (sim::wl(3) == 0) a.push_back("--clean");
    if (sim::wl(2)) { a.push_back("--direction"); a.push_back(sim::wl(2) ? "ascending" : "descending"); }
    if (sim::wl(2)) { a.push_back("--succession"); a.push_back(sim::wl(2) ? "successor" : "predecessor"); }
  }
  if (drv == TC) {
    // the versions which look only past the neighbour in hand state that they need an upper triangular graph
    bool lower_ok = true;
    for (long id : ids) lower_ok = lower_ok && (id == 0 || id == 2 || id == 3 || id == 6 || id == 10 || id == 11 || id == 13 || id == 14);
    if (sim::wl(3) == 0) a.push_back(lower_ok && sim::wl(2) ? "--lower" : "--upper");
    if (sim::wl(3) == 0) a.push_back("--heuristic");
    static const char* fmt[] = {"CSR", "CSR", "VOV", "VOL"};
    a.push_back("--format"); a.push_back(fmt[sim::wl(4)]);
  }
  for (long t : thr) a.push_back(std::to_string(t));
  std::string cmd;
  for (auto& x : a) cmd += x + " ";
  sim::note("%s", cmd.c_str());
  std::set<Key> want;
  for (long id : ids) for (long t : thr) want.insert({F, id, t});
  // the machine
  sim::DiskFaults df;
  df.short_read_pct = sim::flt(3) == 2 ? 40 : 0;
  df.eintr_pct = sim::flt(4) == 3 ? 20 : 0;
  int damage = sim::flt(8) == 7 ? 1 + (int)sim::flt(3) : 0;
  if (damage == 1) { sim::disk_reset(); sim::fault_fired("missing-file"); }
  if (damage == 2) {
    std::size_t cut = bin ? fsize - 1 : std::string((const char*)sim::disk_data(F), fsize).rfind('\n', fsize - 2);
    sim::disk_truncate(F, sim::flt(cut + 1));
    sim::fault_fired("truncated");
  }
  if (damage == 3) df.open_fails = true;
  u32 jumps = (u32)sim::flt(3);
  sim::disk_faults(df);
  sim::allow_failstop(damage != 0);
  sim::run([&] {
    int clock = sim::client([&] {
      for (u32 k = 0; k < jumps; k++) {
        volatile u32 x = 0;
        for (u32 i = 0, n = (u32)sim::flt(3000); i < n; i++) x = x + i;
        static const std::int64_t by[] = {1000000000ll, 3600000000000ll, 86400000000000ll};
        std::int64_t d = by[sim::flt(3)];
        if (sim::flt(2)) d = -d;
        sim::Quiet q;
        sim::clock_jump_wall(d);
        sim::note("wall clock stepped by %lld ns", (long long)d);
      }
    });
    std::string out;
    int rc = -1;
    u64 t0 = sim::mono_ns();
    {
      Out c;
      try {
        switch (drv) {
          case BFS: rc = start(drv_bfs_main, a); break;
          case BC: rc = start(drv_bc_main, a); break;
          case CC: rc = start(drv_cc_main, a); break;
          case PR: rc = start(drv_pr_main, a); break;
          case SSSP: rc = start(drv_sssp_main, a); break;
          default: rc = start(drv_tc_main, a);
        }
      } catch (const std::exception& e) {
        c.off();
        if (!damage) sim::violation("driver", "%s stopped: %s", name, e.what());
      }
      out = c.o.str();
    }
    double elapsed = (double)(sim::mono_ns() - t0) / 1e9;
    sim::join_client(clock);
    sim::Quiet q;
    if (damage) {
      if (rc == 0) sim::violation("driver", "%s timed a graph it could not read (%s) and returned 0", name, damage == 1 ? "no such file" : damage == 2 ? "truncated" : "cannot be opened");
      sim::probe("input refused");
      return;
    }
    if (rc != 0) sim::violation("driver", "%s returned %d", name, rc);
    std::string bad = lines_with(out, {"Source wrong", "Wrong depths", "Couldn't find edge", "Reachability mismatch", "failed verification", "verification failed", "Unknown version", "Invalid"});
    if (!bad.empty()) sim::violation("verify", "%s: %s", name, bad.c_str());
    if (drv == BC && verify) {   // single precision: only what rounding cannot explain
      std::istringstream in(out);
      std::string l;
      while (std::getline(in, l)) {
        u32 v; double x, y, d;
        if (sscanf(l.c_str(), "%u: %lf != %lf %lf", &v, &x, &y, &d) == 4 && !(std::fabs(d) < 2e-4)) sim::violation("verify", "bc: %s", l.c_str());
      }
    }
    if (drv == TC) {
      if (verify) {
        auto p = out.find("verifier reports ");
        std::size_t n = p == std::string::npos ? (std::size_t)-1 : strtoull(out.c_str() + p + 17, nullptr, 10), w = triangles(g);
        if (n != w) sim::violation("verify", "tc: the verifier reports %zd triangles, there are %zu", n, w);
        sim::probe("triangles verified");
      }
      if (log) {
        std::size_t n = sim::disk_size(L), w = 0, k = triangles(g);
        std::string t = n == (std::size_t)-1 ? "" : std::string((const char*)sim::disk_data(L), n);
        for (std::size_t p = 0; (p = t.find("\"triangles\":", p)) != std::string::npos; w++) {
          p += 12;
          if (strtoull(t.c_str() + p, nullptr, 10) != k) sim::violation("log", "tc: %s triangles logged, there are %zu", t.substr(p, 12).c_str(), k);
        }
        if (w != want.size() * trials) sim::violation("log", "tc: %zu results logged for %zu trials", w, want.size() * trials);
      }
    } else {
      check_table(name, out, want, elapsed);
      if (log) check_log(name, L, want, want.size() * trials, header);
    }
    if (drv == PR && verify) {
      std::size_t p = out.find("Verifying\n"), blocks = 0;
      while (p != std::string::npos) {
        std::istringstream in(out.substr(p + 10));
        std::string l;
        double last = 1e300;
        u32 k = 0;
        while (k < std::min<u32>(10, g.n) && std::getline(in, l)) {
          u32 v; double x;
          if (sscanf(l.c_str(), "%u: %lf", &v, &x) != 2 || v >= g.n || x > last) sim::violation("verify", "pr: ranking \"%s\" after %g", l.c_str(), last);
          last = x; k++;
        }
        blocks++;
        p = out.find("Verifying\n", p + 10);
      }
      if (blocks != want.size()) sim::violation("verify", "pr: %zu rankings printed for %zu configurations", blocks, want.size());
    }
    if (log) sim::probe("log");
    if (verify) sim::probe("verified");
    if (sim::preemptions() >= 2) sim::mark_nontrivial();
  });
  sim::allow_failstop(false);
  if (damage) sim::mark_nontrivial();
  if (sim::disk_open_handles()) sim::violation("driver", "%d files left open", sim::disk_open_handles());
}
// Conversion of a Matrix Market file to the serialized form, and the check of a list of sources.
void tools(int tier) {
  sim::disk_reset();
  Gr g = mm_graph(tier);
  if (g.e.empty()) g.e.push_back({0, g.n - 1, 1});
  const char *F = "/sim/g.mtx", *A = "/sim/d.nw", *B = "/sim/u.nw", *S = "/sim/s.mtx";
  MFile mf;
  std::string t = hand_made(mf, g, true);
  if (mf.type == 2) { mf = {}; t = hand_made(mf, g, true); }
  if (mf.type == 2) return;   // the tool keeps whole numbers
  sim::disk_put(F, t.data(), t.size());
  int fault = sim::flt(4) == 3 ? 1 + (int)sim::flt(4) : 0;
  bool sources = sim::wl(3) == 0;
  if (sources) fault = 0;
  sim::DiskFaults df;
  df.short_read_pct = df.short_write_pct = sim::flt(3) == 2 ? 40 : 0;
  if (fault == 1) df.capacity = (std::int64_t)(t.size() + sim::flt(2 * t.size()));
  if (fault == 2) df.eio_write_at = a_read(df.short_write_pct);
  if (fault == 3) df.close_fails = true;
  if (fault == 4) { sim::disk_truncate(F, sim::flt(t.rfind('\n', t.size() - 2) + 1)); sim::fault_fired("truncated"); }
  sim::probe(sources ? "sources" : "process_edge_list");
  sim::disk_faults(df);
  sim::allow_failstop(fault);
  bool both = sim::wl(2), und = sim::wl(2);
  sim::run([&] {
    std::string out;
    if (sources) {
      u32 n = 1 + (u32)sim::wl(8), trials = 1 + (u32)sim::wl(3);
      long seed = (long)sim::wl(100000);
      std::string bad;
      u32 wrong = (u32)sim::flt(3);
      Out c;
      auto el = read_mm<D>(std::string(F));
      adjacency<1> gr(el);
      auto s = bench::build_random_sources(gr, n * trials, seed);
      std::set<u32> changed;
      for (u32 i = 0; i < wrong; i++) changed.insert((u32)sim::flt(s.size()));
      std::string v = "%%MatrixMarket matrix array integer general\n" + std::to_string(s.size()) + " 1\n";
      for (u32 i = 0; i < s.size(); i++) v += std::to_string(s[i] + 1 + (changed.count(i) ? 1 : 0)) + "\n";
      sim::disk_put(S, v.data(), v.size());
      int rc = start(drv_src_main, {"sources", "-f", F, "-s", S, "-i", std::to_string(n), "-n", std::to_string(trials), "--seed", std::to_string(seed)});
      c.off();
      out = c.o.str();
      char want[40];
      snprintf(want, sizeof want, "\n%zu failures\n", changed.size());
      if (rc || out.find(want) == std::string::npos) sim::violation("driver", "sources: %zu of %zu sources differ, reported: %s", changed.size(), s.size(), out.substr(out.size() < 200 ? 0 : out.size() - 200).c_str());
      sim::mark_nontrivial();
      return;
    }
    std::vector<std::string> a{"process_edge_list"};
    if (both || !und) { a.push_back("-d"); a.push_back(A); }
    if (both || und) { a.push_back("-u"); a.push_back(B); }
    a.push_back(F);
    int rc = -1;
    {
      Out c;
      try { rc = start(drv_conv_main, a); }
      catch (const std::exception& e) { c.off(); if (!fault) sim::violation("driver", "process_edge_list stopped: %s", e.what()); }
    }
    bool fired = sim::disk_fault_fired() || fault == 4;
    sim::disk_faults({});
    if (rc != 0) { if (!fired) sim::violation("driver", "process_edge_list failed without a fault"); sim::probe("failure reported"); return; }
    if (fault == 4) sim::violation("driver", "process_edge_list converted a truncated file");
    auto cmp = [&](const char* f, bool directed) {
      MList got;
      std::string why;
      try {
        if (directed) { edge_list<D, int> el(0); el.deserialize(std::string(f)); got = list_of(el); }
        else { edge_list<U, int> el(0); el.deserialize(std::string(f)); got = list_of(el); }
        why = diff(got, expected(mf, directed, 1));
      } catch (const std::exception& e) { why = e.what(); }
      if (!why.empty()) sim::violation("driver", "process_edge_list reported success, its %s output: %s", directed ? "directed" : "undirected", why.c_str());
    };
    if (both || !und) cmp(A, true);
    if (both || und) cmp(B, false);
    if (sim::preemptions() >= 2) sim::mark_nontrivial();
  });
  if (fault) sim::mark_nontrivial();
  sim::allow_failstop(false);
  if (sim::disk_open_handles()) sim::violation("driver", "%d files left open", sim::disk_open_handles());
}
void scenario(int tier) {
  if (sim::wl(8) == 7) tools(tier); else driver(tier);
}
}
const PropertyDef g_properties[] = {{"C25", scenario, "a run counts when a driver ran under at least 2 preemptions, or on damaged input or a failing disk; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
