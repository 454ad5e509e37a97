// Matrix Market files: what is written is read back exactly, and files of other programs are read as they stand.
#include "mm.h"
using namespace h;
namespace {
struct Job {
  char        f[32];
  MWriterP    w;
  MFile       file;
  bool        hand = false, stream = false, directed = true, vec = false;
  int         wt = 0;
  std::string text, kind;
  std::vector<u64> values;
};
void scenario(int tier) {
  sim::disk_reset();
  u32 nc = 1 + (u32)sim::wl(3);
  std::vector<Job> js(nc);
  bool some = false;
  for (u32 i = 0; i < nc; i++) {
    Job& j = js[i];
    snprintf(j.f, sizeof j.f, "/sim/m%u.mtx", i);
    u32 how = (u32)sim::wl(10);
    j.stream = sim::wl(2);
    j.directed = sim::wl(2);
    j.wt = (int)sim::wl(4);
    if (how == 9) {
      j.vec = true;
      bool real = sim::wl(2);
      u32 n = (u32)sim::wl(400);
      j.text = std::string("%%MatrixMarket matrix array ") + (real ? "real" : "integer") + " general\n%\n" + std::to_string(n) + " 1\n";
      for (u32 k = 0; k < n; k++) { u64 v = 1 + sim::wl(1000000); j.values.push_back(v - 1); j.text += std::to_string(v) + (real && sim::wl(2) ? ".0\n" : "\n"); }
      j.kind = "vector";
    } else {
      Gr g = mm_graph(tier);
      some |= !g.e.empty();
      if (how >= 6) { j.hand = true; j.text = hand_made(j.file, g, sim::wl(4) != 0); j.kind = "hand-made file"; }
      else { j.w = make_writer((u32)sim::wl(NWRITERS), g); j.file = j.w->file; j.kind = j.w->kind; }
      if (how >= 6 && g.n < 30) note_graph(g, true);
    }
    // the value of a real number is not representable in every type
    if (j.file.type == 2 && j.wt) j.wt = j.w && j.w->single ? 3 : 2;
    sim::note("client %u: %s into %s list, weight type %d", i, j.kind.c_str(), j.directed ? "a directed" : "an undirected", j.wt);
    if (j.hand || j.vec) sim::disk_put(j.f, j.text.data(), j.text.size());
  }
  sim::DiskFaults df;
  static const unsigned p[] = {0, 20, 70};
  df.short_read_pct = p[sim::flt(3)];
  df.short_write_pct = p[sim::flt(3)];
  df.eintr_pct = sim::flt(3) == 2 ? 30 : 0;
  sim::disk_faults(df);
  sim::run([&] {
    std::vector<int> ids;
    for (auto& j : js)
      ids.push_back(sim::client([&j] {
        try {
          if (j.vec) {
            auto v = j.stream ? [&] { std::ifstream i(j.f); return read_mm_vector<u64>(i); }() : read_mm_vector<u64>(std::string(j.f));
            if (v != j.values) sim::violation("matrix-market", "a vector of %zu values was read as %zu different ones", j.values.size(), v.size());
            sim::probe("vector");
            return;
          }
          if (j.w) j.w->write(j.f);
          if (!is_mm(j.f)) sim::violation("matrix-market", "%s is not recognised as a Matrix Market file", j.kind.c_str());
          if ((get_mm_symmetry(j.f) == directedness::undirected) != j.file.symmetric) sim::violation("matrix-market", "%s: wrong symmetry", j.kind.c_str());
          MList got, want;
          if (j.w && j.w->bi) {
            got = j.wt ? read_bi<double>(j.f, j.file.type == 0) : read_bi<>(j.f, j.file.type == 0);
            want.n0 = j.file.n0; want.n1 = j.file.n1;
            for (auto& e : j.file.e) want.e.push_back({e.u, e.v, !j.wt ? 0 : j.file.type ? e.w : 1});
            sim::probe("bipartite");
          } else {
            got = read_list(j.f, j.directed, j.wt, j.stream);
            want = expected(j.file, j.directed, j.wt);
            sim::probe(j.hand ? "hand-made" : "written");
          }
          std::string d = diff(got, want);
          if (!d.empty()) sim::violation("matrix-market", "%s: %s", j.kind.c_str(), d.c_str());
        } catch (const std::exception& e) {
          sim::violation("matrix-market", "%s: %s", j.kind.c_str(), e.what());
        }
      }));
    for (int id : ids) sim::join_client(id);
  });
  if (sim::disk_open_handles()) sim::violation("handles", "%d files left open", sim::disk_open_handles());
  if (some && (df.short_read_pct || df.short_write_pct || df.eintr_pct || nc > 1)) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C20", scenario, "a run counts when transfers were shortened or interrupted, or several clients worked at once, on a graph with edges; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
