// Matrix Market files under faults: a failed write is reported, a damaged or unreadable file is refused.
#include "mm.h"
using namespace h;
namespace {
const char* F = "/sim/m.mtx";
void scenario(int tier) {
  sim::disk_reset();
  Gr g = mm_graph(tier);
  MWriterP w = make_writer((u32)sim::wl(NWRITERS), g);
  bool stream = sim::wl(2), directed = sim::wl(2), shortio = sim::wl(3) == 0;
  int wt = (int)sim::wl(4);
  if (w->file.type == 2 && wt) wt = w->single ? 3 : 2;
  static const char* modes[] = {"write fault", "close fault", "crash while writing", "read fault", "truncated file", "damaged entry", "damaged header", "missing file", "damaged vector"};
  int mode = (int)sim::wl(9);
  sim::probe(modes[mode]);
  sim::note("%s, %u vertices, %zu entries: %s, read into %s list, weight type %d", w->kind.c_str(), g.n, w->file.e.size(), modes[mode], directed ? "a directed" : "an undirected", wt);
  bool nontrivial = false;
  sim::run([&] {
    auto load = [&] {
      if (!w->bi) return read_list(F, directed, wt, stream);
      return wt ? read_bi<double>(F, w->file.type == 0) : read_bi<>(F, w->file.type == 0);
    };
    MList want;
    if (w->bi) {
      want.n0 = w->file.n0; want.n1 = w->file.n1;
      for (auto& e : w->file.e) want.e.push_back({e.u, e.v, !wt ? 0 : w->file.type ? e.w : 1});
    } else want = expected(w->file, directed, wt);
    auto verify = [&](const char* when) {
      try {
        std::string d = diff(load(), want);
        if (!d.empty()) sim::violation("matrix-market", "%s %s: %s", w->kind.c_str(), when, d.c_str());
      } catch (const std::exception& e) { sim::violation("matrix-market", "%s %s: %s", w->kind.c_str(), when, e.what()); }
    };
    w->write(F);
    std::size_t full = sim::disk_size(F);
    std::string image((const char*)sim::disk_data(F), full);
    // where the entries start and the last one
    std::size_t first = image.find('\n'), last;
    while (image[first + 1] == '%') first = image.find('\n', first + 1);
    std::size_t size_line = first + 1;
    first = image.find('\n', size_line) + 1;
    last = w->file.e.empty() ? size_line : image.rfind('\n', image.size() - 2) + 1;
    sim::DiskFaults df;
    if (shortio) { df.short_read_pct = df.short_write_pct = sim::flt(2) ? 80 : 30; df.eintr_pct = 10; }
    if (mode <= 2) {
      sim::disk_reset();
      if (sim::wl(2)) { std::string junk(full + 60, '7'); sim::disk_put(F, junk.data(), junk.size()); }
      int how = mode == 1 ? 3 : mode == 2 ? 4 : (int)sim::flt(3);
      if (how == 0) df.capacity = (std::int64_t)sim::flt(full + 1);
      if (how == 1) df.eio_write_at = (std::int64_t)sim::flt(4 + 2 * w->file.e.size());
      if (how == 2) df.open_fails = true;
      if (how == 3) df.close_fails = true;
      if (how == 4) df.crash_write_at = (std::int64_t)sim::flt(4 + 2 * w->file.e.size());
      sim::disk_faults(df);
      bool wrote = false;
      try { w->write(F); wrote = true; }
      catch (const std::exception& e) {
        if (!sim::disk_fault_fired()) sim::violation("spurious", "%s: writing failed without a fault: %s", w->kind.c_str(), e.what());
      }
      nontrivial = sim::disk_fault_fired();
      sim::disk_faults({});
      std::size_t have = sim::disk_size(F);
      if (wrote && (have != full || memcmp(sim::disk_data(F), image.data(), full)))
        sim::violation("lost-write", "%s: %zu of %zu bytes reached the disk and the writer was not told", w->kind.c_str(), have == (std::size_t)-1 ? 0 : have, full);
      // a torn file is refused, unless only its last line is
      if (!wrote && have != (std::size_t)-1 && have <= last && !w->bi) {
        bool threw = false;
        try { load(); } catch (const std::exception&) { threw = true; sim::probe("torn file refused"); }
        if (!threw) sim::violation("torn", "%s: %zu of %zu bytes on disk were read without an error", w->kind.c_str(), have, full);
      }
      w->write(F);
      verify("after a fault");
      return;
    }
    bool must = true, odd = false;
    std::string t = image;
    if (mode == 3) { must = false; if (sim::flt(4) == 3) df.open_fails = true; else df.eio_read_at = a_read(shortio); }
    if (mode == 4) {
      std::size_t at = sim::flt(3) == 0 ? sim::flt(full) : last - sim::flt(last < 60 ? last : 60);
      t.resize(at);
      must = at <= last;
      odd = !must;
      sim::note("cut to %zu of %zu bytes, last entry at %zu", at, full, last);
      sim::fault_fired("truncated");
    }
    if (mode == 5) {
      if (w->file.e.empty()) return;
      // one entry is lost or unreadable
      std::size_t k = sim::flt(w->file.e.size()), b = first;
      for (std::size_t i = 0; i < k; i++) b = t.find('\n', b) + 1;
      std::size_t e = t.find('\n', b);
      int how = (int)sim::flt(6);
      std::string entry = t.substr(b, e - b), repl;
      if (how == 0) { t.erase(b, e + 1 - b); }
      if (how == 1) t.replace(b, e - b, "");
      if (how == 2) t.replace(b, e - b, entry.substr(0, entry.find(' ')));
      if (how == 3) t.replace(b, e - b, "x" + entry);
      if (how == 4) t.replace(b, e - b, "0" + entry.substr(entry.find(' ')));
      if (how == 5) { std::size_t s1 = entry.find(' '), s2 = entry.find(' ', s1 + 1); t.replace(b, e - b, entry.substr(0, s1) + " 0" + (s2 == std::string::npos ? "" : entry.substr(s2))); }
      sim::note("entry %zu '%s', damage %d", k, entry.c_str(), how);
      sim::fault_fired("damaged-entry");
    }
    if (mode == 6) {
      int how = (int)sim::flt(7);
      std::size_t eol = t.find('\n');
      if (how == 0) t[2 + sim::flt(12)] = '?';
      if (how == 1) t.erase(0, eol + 1);
      if (how == 2) t.replace(eol - 4, 4, "odd!");
      if (how == 3) t.replace(size_line, t.find('\n', size_line) - size_line, "7 7");
      if (how == 4) t.replace(size_line, 1, "q");
      if (how == 5) { std::size_t sp = t.rfind(' ', eol); t.erase(sp, eol - sp); }
      if (how == 6) t.insert(t[eol - 1] == '\r' ? eol - 1 : eol, "ized");
      if (w->bi && how != 3 && how != 4) return;   // that header is read by the harness
      if (w->bi) odd = true, must = false;
      sim::note("header damage %d", how);
      sim::fault_fired("damaged-header");
    }
    if (mode == 7) { must = true; sim::disk_reset(); sim::fault_fired("missing-file"); }
    else if (mode == 8) {
      u32 n = 2 + (u32)sim::wl(60);
      std::string v = "%%MatrixMarket matrix array " + std::string(sim::wl(2) ? "real" : "integer") + " general\n" + std::to_string(n) + " 1\n";
      u32 keep = (u32)sim::flt(n);
      for (u32 i = 0; i < keep; i++) v += std::to_string(1 + i) + "\n";
      if (sim::flt(2)) v += "oops\n";
      sim::disk_put(F, v.data(), v.size());
      sim::fault_fired("truncated");
      bool threw = false;
      try { read_mm_vector<u64>(std::string(F)); } catch (const std::exception&) { threw = true; }
      if (!threw) sim::violation("undetected", "a vector of %u values holding only %u was read without an error", n, keep);
      nontrivial = true;
    } else if (mode != 3) { sim::disk_reset(); sim::disk_put(F, t.data(), t.size()); }
    if (mode != 8) {
      if (w->bi && mode == 7) return;
      sim::disk_faults(df);
      bool threw = false;
      MList got;
      std::string msg;
      try { got = load(); } catch (const std::exception& e) { threw = true; msg = e.what(); }
      bool fired = sim::disk_fault_fired() || must || odd;
      if (threw && !fired) sim::violation("spurious", "%s: reading failed without a fault: %s", w->kind.c_str(), msg.c_str());
      bool swallowed = w->bi && (mode == 4 || mode == 3);   // the sizes are read by the harness
      if (!threw && must && !swallowed) sim::violation("undetected", "%s: %s was read as %zu edges without an error", w->kind.c_str(), modes[mode], got.e.size());
      if (!threw && mode == 3 && !swallowed) { std::string d = diff(got, want); if (!d.empty()) sim::violation("undetected", "%s: after a read error: %s", w->kind.c_str(), d.c_str()); }
      if (threw) sim::probe("reader refused");
      nontrivial = fired;
    }
    sim::disk_faults({});
    sim::disk_put(F, image.data(), image.size());
    verify("after a fault");
  });
  if (sim::disk_open_handles()) sim::violation("handles", "%d files left open", sim::disk_open_handles());
  if (nontrivial) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C21", scenario, "a run counts when a fault hit the file (write, close or read error, full disk, crash, truncated, damaged or missing file); distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
