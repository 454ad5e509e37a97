// What the benchmark drivers work on: graphs and sources loaded from files, degrees, random sources, thread limits.
#include "mm.h"
#include "common.hpp"
#include <iostream>
using namespace h;
namespace {
constexpr auto D = directedness::directed, U = directedness::undirected;
struct Hush {   // the drivers report on std::cout
  std::ostringstream o;
  std::streambuf *   a, *b;
  Hush() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Hush() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
template <directedness d, class... A>
MList load_text(const std::string& f) {
  auto el = bench::load_graph<d, A...>(f);
  return list_of(el);
}
MList load(const std::string& f, bool directed, int wt) {
  if (directed) switch (wt) {
    case 0: return load_text<D>(f);
    case 1: return load_text<D, int>(f);
    case 2: return load_text<D, double>(f);
    default: return load_text<D, float>(f);
  }
  switch (wt) {
    case 0: return load_text<U>(f);
    case 1: return load_text<U, int>(f);
    case 2: return load_text<U, double>(f);
    default: return load_text<U, float>(f);
  }
}
// Serialized by the library itself, as a driver's input is made.
template <directedness d, class... A>
MList save_serialized(const Gr& g, const char* f) {
  edge_list<d, A...> el(g.n);
  u32 k = 0;
  for (auto& a : g.e) { el.push_back(a.u, a.v, (A)weight(a.w, k, 2)...); k++; }
  el.close_for_push_back();
  el.serialize(std::string(f));
  return list_of(el);
}
MList save(const Gr& g, const char* f, bool directed, int wt) {
  if (directed) switch (wt) {
    case 0: return save_serialized<D>(g, f);
    case 1: return save_serialized<D, int>(g, f);
    case 2: return save_serialized<D, double>(g, f);
    default: return save_serialized<D, float>(g, f);
  }
  switch (wt) {
    case 0: return save_serialized<U>(g, f);
    case 1: return save_serialized<U, int>(g, f);
    case 2: return save_serialized<U, double>(g, f);
    default: return save_serialized<U, float>(g, f);
  }
}
void loading(int tier) {
  sim::disk_reset();
  const char* F = "/sim/g";
  Gr g = mm_graph(tier);
  bool directed = sim::wl(2), text = sim::wl(2);
  int wt = (int)sim::wl(4);
  MFile mf;
  std::string t;
  MList want;
  if (text) {
    t = hand_made(mf, g, sim::wl(4) != 0);
    if (mf.type == 2 && wt) wt = 2;
    want = expected(mf, directed, wt);
    sim::disk_put(F, t.data(), t.size());
  } else {
    want = save(g, F, directed, wt);
  }
  static const char* modes[] = {"sound file", "missing", "not a graph", "read fault", "truncated"};
  int mode = (int)sim::wl(6);
  if (mode == 5) mode = 0;
  sim::probe(modes[mode]);
  sim::note("%s, %u vertices, %zu edges, %s, weight type %d: %s", text ? "Matrix Market" : "serialized", g.n, g.e.size(), directed ? "directed" : "undirected", wt, modes[mode]);
  sim::DiskFaults df;
  static const unsigned p[] = {0, 20, 70};
  df.short_read_pct = p[sim::flt(3)];
  df.eintr_pct = sim::flt(3) == 2 ? 30 : 0;
  bool must = false;
  if (mode == 1) { sim::disk_reset(); must = true; }
  if (mode == 2) {
    static const char* odd[] = {"", "\n", "12 13\n1 2\n", "%MatrixMarket matrix coordinate real general\n1 1 0\n", "NWgraph file\n1 2 3\n", "%%MatrixMarket2 matrix coordinate real general\n1 1 0\n", "%%MatrixMarket matrix array real general\n1 1\n0.5\n"};
    u32 k = (u32)sim::flt(7);
    sim::disk_reset();
    sim::disk_put(F, odd[k], strlen(odd[k]));
    must = true;
  }
  if (mode == 3) { if (sim::flt(4) == 3) df.open_fails = true; else df.eio_read_at = a_read(df.short_read_pct); }
  if (mode == 4) {
    // torn before the last entry began
    std::size_t n = sim::disk_size(F), last;
    std::string all((const char*)sim::disk_data(F), n);
    if (text) { last = g.e.empty() ? all.find('\n', all.rfind('%', n)) + 1 : all.rfind('\n', n - 2) + 1; }
    else last = n - 1;
    if (last > n) last = n - 1;
    sim::disk_truncate(F, sim::flt(last + 1));
    sim::fault_fired("truncated");
    must = true;
  }
  if (must && mode != 4) sim::fault_fired(modes[mode]);
  sim::disk_faults(df);
  sim::allow_failstop(mode != 0);
  if (mode) sim::mark_nontrivial();
  sim::run([&] {
    Hush h;
    MList got;
    try { got = load(F, directed, wt); }
    catch (const std::exception& e) {
      if (!mode) sim::violation("load", "a sound file was refused: %s", e.what());
      if (mode == 3 && !sim::disk_fault_fired()) sim::violation("load", "refused without a fault: %s", e.what());
      sim::probe("refused");
      return;
    }
    if (must) sim::violation("load", "%s: loaded as %zu edges without an error", modes[mode], got.e.size());
    std::string d = diff(got, want);
    if (!d.empty()) sim::violation("load", "%s", d.c_str());
    if (got.e.size() && (df.short_read_pct || df.eintr_pct)) sim::mark_nontrivial();
  });
  sim::allow_failstop(false);
  if (sim::disk_open_handles()) sim::violation("load", "%d files left open", sim::disk_open_handles());
}
template <class A>
std::vector<u32> some_sources(const char* what, A& a, const std::vector<u32>& deg, u32 n, long seed) {
  auto s = bench::build_random_sources(a, n, seed);
  sim::Quiet q;
  if (s.size() != n) sim::violation("sources", "%s: %zu sources instead of %u", what, s.size(), n);
  for (auto v : s) {
    if (v >= deg.size()) sim::violation("sources", "%s: source %u of %zu vertices", what, (u32)v, deg.size());
    if (!deg[v]) sim::violation("sources", "%s: source %u has no edge", what, (u32)v);
  }
  return {s.begin(), s.end()};
}
// Degrees and sources: counted in parallel, the same on every schedule.
void sources(int tier) {
  GenOpts o;
  if (tier) o.large = 600;
  o.huge = 1;
  o.maxw = 9;
  Gr g = gen_graph(o);
  bool sym = sim::wl(2), weighted = sim::wl(2);
  if (sym) g = symmetrise(g, sim::wl(2), true);
  note_graph(g);
  u32 n = (u32)sim::wl(40);
  long seed = (long)sim::wl(1000) * 27491095;
  std::vector<u32> in(g.n), out(g.n);
  for (auto& a : g.e) { out[a.u]++; in[a.v]++; }
  u32 calls = 2 + (u32)sim::wl(2);
  bool together = sim::wl(2), build = sim::wl(2);
  std::vector<std::vector<u32>> got(calls);
  Csr c = csr(g, false, false);
  adjacency<0>      A = to_adj<0>(c);
  adjacency<0, int> W = to_adjw<0, int>(c);
  sim::run([&] {
    Hush h;
    if (build) {
      if (weighted) {
        edge_list<D, int> el(g.n);
        { sim::Quiet q; for (auto& a : g.e) el.push_back(a.u, a.v, (int)a.w); el.close_for_push_back(); }
        adjacency<0, int> B = bench::build_adjacency<0>(el, sim::wl(2), std::execution::par_unseq);
        W = B;
      } else {
        edge_list<D> el(g.n);
        { sim::Quiet q; for (auto& a : g.e) el.push_back(a.u, a.v); el.close_for_push_back(); }
        adjacency<0> B = bench::build_adjacency<0>(el, sim::wl(2), std::execution::par);
        A = B;
      }
    }
    auto one = [&](u32 i) {
      auto both = [&](auto& a) {
        auto d = bench::build_degrees(a);
        {
          sim::Quiet q;
          if (d.size() != g.n) sim::violation("degrees", "%zu degrees for %u vertices", d.size(), g.n);
          for (u32 v = 0; v < g.n; v++)
            if (d[v] != in[v]) sim::violation("degrees", "vertex %u: %u edges counted, it has %u", v, (u32)d[v], in[v]);
        }
        if (!g.e.empty()) got[i] = some_sources("random sources", a, in, n, seed);
      };
      if (weighted) both(W); else both(A);
    };
    if (together) {
      std::vector<int> ids;
      for (u32 i = 0; i < calls; i++) ids.push_back(sim::client([&, i] { one(i); }));
      for (int id : ids) sim::join_client(id);
    } else {
      for (u32 i = 0; i < calls; i++) {
        auto _ = bench::set_n_threads(1 + (long)sim::wl(8));
        one(i);
      }
    }
  });
  for (u32 i = 1; i < calls; i++)
    if (got[i] != got[0]) sim::violation("sources", "the same seed gives other sources: %s and %s", show(got[0]).c_str(), show(got[i]).c_str());
  if (g.e.size() >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
void source_file(int) {
  sim::disk_reset();
  const char* F = "/sim/s.mtx";
  u32 n = (u32)sim::wl(60), keep = n, ask = sim::wl(2) ? n : (u32)sim::wl(60);
  bool real = sim::wl(2);
  int mode = (int)sim::wl(4);   // sound, truncated, missing, read fault
  std::vector<u32> v;
  std::string t = std::string("%%MatrixMarket matrix array ") + (real ? "real" : "integer") + " general\n%\n" + std::to_string(n) + " 1\n";
  if (mode == 1) keep = n ? (u32)sim::flt(n) : 0;
  for (u32 i = 0; i < n; i++) v.push_back((u32)sim::wl(100000));
  for (u32 i = 0; i < keep; i++) t += std::to_string(v[i] + 1) + "\n";
  if (mode != 2) sim::disk_put(F, t.data(), t.size());
  sim::DiskFaults df;
  df.short_read_pct = sim::flt(2) ? 50 : 0;
  if (mode == 3) { if (sim::flt(4) == 3) df.open_fails = true; else df.eio_read_at = (std::int64_t)sim::flt(4); }
  bool must = mode == 2 || (mode == 1 && keep < n) || (ask && ask != n);
  if (must && !(ask && ask != n)) sim::fault_fired(mode == 2 ? "missing-file" : "truncated");
  bool fault = must || mode == 3;
  sim::disk_faults(df);
  sim::allow_failstop(fault);
  sim::note("%u sources in the file, %u asked for, mode %d", n, ask, mode);
  sim::probe("source file");
  if (fault) sim::mark_nontrivial();
  sim::run([&] {
    Hush h;
    adjacency<0> a(0);
    std::vector<u32> got;
    try { got = bench::load_sources_from_file(a, F, ask); }
    catch (const std::exception& e) {
      if (!fault) sim::violation("sources", "a sound file was refused: %s", e.what());
      return;
    }
    if (must) sim::violation("sources", "%u sources in the file, %u asked for, mode %d: %zu loaded without an error", keep, ask, mode, got.size());
    if (got != v) sim::violation("sources", "the file holds %s, loaded %s", show(v).c_str(), show(got).c_str());
  });
  sim::allow_failstop(false);
  if (sim::disk_open_handles()) sim::violation("load", "%d files left open", sim::disk_open_handles());
}
// Thread limits: in force while the control lives, for the innermost and strictest one.
void threads(int) {
  sim::run([&] {
    long base = bench::get_n_threads();
    long a = 1 + (long)sim::wl(8), b = 1 + (long)sim::wl(8);
    auto all = bench::parse_n_threads({});
    if (all != std::vector<long>{base}) sim::violation("threads", "without arguments one run with %ld threads is expected", base);
    auto some = bench::parse_n_threads({std::to_string(a), std::to_string(b)});
    if (some != std::vector<long>{a, b}) sim::violation("threads", "thread numbers are not taken as given");
    for (auto n : some) {
      auto _ = bench::set_n_threads(n);
      if (bench::get_n_threads() != n) sim::violation("threads", "%ld threads set, %ld in force", n, bench::get_n_threads());
      std::vector<u32> hit(50 + sim::wl(100));
      tbb::parallel_for(tbb::blocked_range<std::size_t>(0, hit.size()), [&](auto& r) { for (auto i = r.begin(); i != r.end(); ++i) hit[i]++; });
      for (auto x : hit) if (x != 1) sim::violation("threads", "an index was visited %u times", x);
    }
    if (bench::get_n_threads() != base) sim::violation("threads", "%ld threads in force afterwards, %ld before", bench::get_n_threads(), base);
    auto ids = bench::parse_ids({"3", "0", std::to_string(a)});
    if (ids != std::vector<long>{3, 0, a}) sim::violation("threads", "version numbers are not taken as given");
  });
}
void scenario(int tier) {
  switch (sim::wl(12)) {
    case 0: source_file(tier); break;
    case 1: sim::probe("thread limits"); threads(tier); break;
    case 2: case 3: case 4: case 5: sim::probe("loading"); loading(tier); break;
    default: sim::probe("degrees and sources"); sources(tier);
  }
}
}
const PropertyDef g_properties[] = {{"C24", scenario, "a run counts when sources or degrees were computed on a graph of at least 3 edges under at least 2 preemptions, or a file was loaded under shortened, interrupted or failing reads or after damage; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
