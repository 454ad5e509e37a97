// A memory-mapped Matrix Market file: however it is divided among readers, every entry is read exactly once.
#include "mm.h"
using namespace h;
namespace {
const char* F = "/sim/m.mtx";
void scenario(int tier) {
  sim::disk_reset();
  GenOpts o;
  o.small = 8; o.medium = 60; o.large = tier ? 900 : 300;
  o.huge = 1;
  static const u32 mw[] = {1, 40, 5000};
  o.maxw = mw[sim::wl(3)];
  Gr g = gen_graph(o);
  if (sim::wl(15) == 0) g.e.clear();
  MFile f;
  bool newline = sim::wl(3) != 0;
  std::string t = hand_made(f, g, newline);
  bool complex = f.type == 2 && sim::wl(3) == 0;
  if (complex) {   // every entry has a second value, its number
    t.replace(t.find("real"), 4, "complex");
    std::size_t at = t.find('\n');
    while (t[at + 1] == '%') at = t.find('\n', at + 1);
    at = t.find('\n', at + 1);
    for (std::size_t k = 0; k < f.e.size(); k++) {
      at = t.find('\n', at + 1);
      std::string v = " " + std::to_string(k);
      if (at == std::string::npos) { t += v; break; }
      t.insert(at, v);
      at += v.size();
    }
  }
  if (sim::wl(3) == 0) {   // end exactly at the end of a page
    std::size_t eol = t.find('\n') + 1, want = (t.size() / 4096 + 1) * 4096;
    while (t.size() < want) {
      std::size_t k = want - t.size();
      t.insert(eol, k > 300 ? "%" + std::string(98, 'c') + "\n" : "%" + std::string(k >= 2 ? k - 2 : 0, 'c') + "\n");
    }
    if (t.size() == want) sim::probe("file ends at the end of a page");
  }
  sim::disk_put(F, t.data(), t.size());
  std::size_t m = f.e.size();
  u32 nr = 1 + (u32)sim::wl(5);
  bool even = sim::wl(3) != 0;
  std::vector<int> cut{0};
  for (u32 i = 1; i < nr; i++) cut.push_back(even ? (int)(m * i / nr) : (int)sim::wl(m + 1));
  cut.push_back((int)m);
  std::sort(cut.begin(), cut.end());
  int vals = (int)sim::wl(3);
  bool early = sim::wl(2);
  sim::note("%zu bytes, %zu entries, type %d, %s final newline, %u readers, %s values", t.size(), m, f.type, newline ? "with" : "without", nr, vals == 0 ? "no" : vals == 1 ? "double" : "int");
  if (f.type == 2 && vals == 2) vals = 1;
  if (f.type == 0) vals = 0;
  if (complex && vals) vals = 3;
  std::vector<std::vector<MEnt>> got(nr);
  sim::DiskFaults df;
  if (sim::flt(3) == 2) df.short_read_pct = 50;
  int fault = (int)sim::flt(12);
  if (fault == 10) df.open_fails = true;
  if (fault == 11) df.eio_read_at = (std::int64_t)sim::flt(4);
  sim::allow_failstop(fault >= 10);
  sim::disk_faults(df);
  bool opened = false;
  sim::run([&] {
    std::unique_ptr<mmio::MatrixMarketFile> mm;
    try { mm = std::make_unique<mmio::MatrixMarketFile>(std::filesystem::path(F)); opened = true; }
    catch (const std::exception& e) { if (fault < 10) sim::violation("spurious", "a good file was refused: %s", e.what()); }
    if (!opened) return;
    sim::allow_failstop(false);
    if (mm->getNRows() != (int)f.n0 || mm->getNCols() != (int)f.n1 || mm->getNEdges() != (int)m || mm->isPattern() != (f.type == 0) || mm->isSymmetric() != f.symmetric)
      sim::violation("mapped-file", "header read as %d by %d, %d entries", mm->getNRows(), mm->getNCols(), mm->getNEdges());
    if (sim::disk_open_handles() > 1) sim::violation("handles", "%d files left open", sim::disk_open_handles());
    std::vector<int> ids;
    for (u32 r = 0; r < nr; r++)
      ids.push_back(sim::client([&, r] {
        // each reader converts its share, one entry after another
        std::size_t limit = m + 4;
        auto keep = [&](u32 u, u32 v, double w) {
          if (got[r].size() == limit) sim::violation("mapped-file", "reader %u of entries [%d, %d) does not come to an end", r, cut[r], cut[r + 1]);
          got[r].push_back({u, v, w});
        };
        if (vals == 0) for (auto&& [u, v] : mmio::edges<>(*mm, cut[r], cut[r + 1])) keep(u, v, 0);
        if (vals == 1) for (auto&& [u, v, w] : mmio::edges<double>(*mm, cut[r], cut[r + 1])) keep(u, v, w);
        if (vals == 3) {
          int k = cut[r];
          for (auto&& [u, v, w, second] : mmio::edges<double, int>(*mm, cut[r], cut[r + 1])) {
            keep(u, v, w);
            if (got[r].size() == 1) k = second;   // shares are approximate: which entry comes first is not promised
            else if (++k != second) sim::violation("mapped-file", "reader %u read %d as the second value of an entry, expected %d", r, second, k);
          }
        }
        if (vals == 2) for (auto&& [u, v, w] : mmio::edges<int>(*mm, cut[r], cut[r + 1])) keep(u, v, w);
      }));
    for (int id : ids) sim::join_client(id);
    if (early) { release(*mm); if (sim::disk_mappings()) sim::violation("handles", "release() left the file mapped"); }
    mm.reset();
  });
  sim::allow_failstop(false);
  if (opened) {
    std::vector<MEnt> all;
    for (auto& v : got) all.insert(all.end(), v.begin(), v.end());
    MList a, b;
    a.e = all;
    b.e = f.e;
    if (!vals) for (auto& e : b.e) e.w = 0;
    std::string d = diff(a, b);
    if (!d.empty()) {
      std::string c;
      for (u32 r = 0; r < nr; r++) c += " [" + std::to_string(cut[r]) + ", " + std::to_string(cut[r + 1]) + ") read " + std::to_string(got[r].size());
      sim::violation("mapped-file", "the readers together: %s;%s", d.c_str(), c.c_str());
    }
    if (sim::disk_open_handles()) sim::violation("handles", "%d files left open", sim::disk_open_handles());
    if (sim::disk_mappings()) sim::violation("handles", "the file was left mapped");
  }
  if (m && (nr > 1 || fault >= 10)) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C22", scenario, "a run counts when several readers shared a file with entries, or opening it was made to fail; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
