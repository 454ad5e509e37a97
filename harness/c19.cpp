// Failing, full, torn or foreign storage: serialization either works exactly or says so.
#include "io.h"
using namespace h;
namespace {
const char* F = "/sim/a";
std::string try_load(Store& s, bool stream, bool& threw) {
  threw = false;
  try {
    if (stream && s.streams()) { std::ifstream i(F, std::ifstream::binary); s.load(i); }
    else s.load(std::string(F));
  } catch (const std::exception& e) { threw = true; return e.what(); }
  return "";
}
void scenario(int tier) {
  sim::disk_reset();
  u32 kind = (u32)sim::wl(NKINDS);
  Gr g = io_graph(tier), old = io_graph(tier);
  int mode = (int)sim::wl(7);
  bool stream = sim::wl(3) == 0, dirty = sim::wl(2), shortio = sim::wl(3) == 0;
  static const char* modes[] = {"write fault", "crash while writing", "read fault", "truncated file", "file of another type", "missing file", "close fault"};
  sim::probe(modes[mode]);
  StoreP a = make_store(kind), b = make_store(kind), other;
  sim::note("%s, %u vertices, %zu edges: %s", a->kind.c_str(), g.n, g.e.size(), modes[mode]);
  std::string want;
  std::size_t full = 0;
  bool nontrivial = false;
  sim::run([&] {
    {
      sim::Quiet q;
      a->fill(g);
      want = a->bytes();
      if (dirty) b->fill(old);
    }
    sim::DiskFaults df;
    if (shortio) { df.short_read_pct = df.short_write_pct = sim::flt(2) ? 80 : 40; df.eintr_pct = 10; }
    if (mode <= 1 || mode == 6) {
      // how many writes, and how large the file: a trial run
      a->save(std::string(F));
      full = sim::disk_size(F);
      std::string junk(full + 100, 'j');
      sim::disk_reset();
      bool existed = sim::wl(2);
      if (existed) sim::disk_put(F, junk.data(), junk.size());
      int how = mode == 1 ? 3 : mode == 6 ? 4 : (int)sim::flt(3);
      if (how == 0) df.capacity = (std::int64_t)sim::flt(full + 1);
      if (how == 1) df.eio_write_at = a_read(shortio);
      if (how == 2) df.open_fails = true;
      if (how == 3) df.crash_write_at = a_read(shortio);
      if (how == 4) df.close_fails = true;
      sim::disk_faults(df);
      bool wrote = false;
      try { a->save(std::string(F)); wrote = true; }
      catch (const std::exception& e) {
        if (!sim::disk_fault_fired()) sim::violation("spurious", "%s: writing failed without a fault: %s", a->kind.c_str(), e.what());
      }
      nontrivial = sim::disk_fault_fired();
      sim::disk_faults({});
      std::size_t have = sim::disk_size(F);
      if (wrote && have != full) sim::violation("lost-write", "%s: %zu of %zu bytes reached the disk and the writer was not told", a->kind.c_str(), have == (std::size_t)-1 ? 0 : have, full);
      if (a->bytes() != want) sim::violation("damaged", "%s changed while it was written", a->kind.c_str());
      // after a restart: the whole object, or an error
      bool threw;
      std::string msg = try_load(*b, stream, threw);
      if (!threw && b->bytes() != want) sim::violation("torn", "%s: %zu of %zu bytes on disk were read back as a different object without an error", a->kind.c_str(), have, full);
      if (threw && have == full && wrote) sim::violation("spurious", "%s: a complete file could not be read: %s", a->kind.c_str(), msg.c_str());
      if (threw) sim::probe("torn file refused");
      // and the writer can be used again
      a->save(std::string(F));
    } else {
      a->save(std::string(F));
      full = sim::disk_size(F);
      bool must = false, foreign = false;
      std::vector<unsigned char> image(sim::disk_data(F), sim::disk_data(F) + full);
      if (mode == 2) { if (sim::flt(4) == 3) df.open_fails = true; else df.eio_read_at = a_read(shortio); }
      if (mode == 3) {
        std::size_t at = sim::flt(2) ? (std::size_t)sim::flt(full) : full - 1 - (std::size_t)sim::flt(full < 40 ? full : 40);
        sim::disk_truncate(F, at);
        sim::note("cut to %zu of %zu bytes", at, full);
        sim::fault_fired("truncated");
        must = true;
      }
      if (mode == 4) {
        // a file of another kind of object (kinds with the same layout are left out)
        static const int layout[NKINDS] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0, 15, 16, 17, 18, 19, 20};
        u32 k2 = (u32)sim::wl(NKINDS);
        other = make_store(k2);
        if (layout[k2] != layout[kind]) {
          { sim::Quiet q; other->fill(old); }
          other->save(std::string(F));
          auto plain = [](u32 k) { return (k >= 11 && k <= 14) || k == 16; };   // these carry no mark of their type, only counts and sizes
          must = !plain(kind) || plain(k2);
          foreign = !must;
          sim::note("the file holds a %s, %u vertices, %zu edges", other->kind.c_str(), old.n, old.e.size());
          sim::fault_fired("foreign-file");
        }
      }
      if (mode == 5) { sim::disk_reset(); must = true; sim::fault_fired("missing-file"); }
      sim::disk_faults(df);
      bool threw;
      std::string msg = try_load(*b, stream, threw);
      bool fired = sim::disk_fault_fired() || must || foreign;
      nontrivial = fired;
      if (threw && !fired) sim::violation("spurious", "%s: reading failed without a fault: %s", a->kind.c_str(), msg.c_str());
      if (!threw && must) sim::violation("undetected", "%s: %s was read without an error", a->kind.c_str(), modes[mode]);
      if (!threw && !foreign && b->bytes() != want) sim::violation("undetected", "%s: %s gave a different object without an error", a->kind.c_str(), modes[mode]);
      if (threw) sim::probe("reader refused");
      sim::disk_faults({});
      sim::disk_put(F, image.data(), image.size());
    }
    // the fault is over: the same objects work again
    bool threw;
    std::string msg = try_load(*b, stream, threw);
    if (threw) sim::violation("recovery", "%s: a good file is refused after a fault: %s", a->kind.c_str(), msg.c_str());
    if (b->bytes() != want) sim::violation("recovery", "%s: a good file gives a different object after a fault", a->kind.c_str());
  });
  if (sim::disk_open_handles()) sim::violation("handles", "%d files left open", sim::disk_open_handles());
  if (nontrivial) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C19", scenario, "a run counts when a storage fault hit the transfer (error, full disk, crash, torn, foreign or missing file); distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
