// What is serialized is read back exactly, whatever way the system splits, delays or interrupts the transfers.
#include "io.h"
using namespace h;
namespace {
sim::DiskFaults benign() {
  sim::DiskFaults f;
  static const unsigned p[] = {0, 20, 70};
  f.short_read_pct = p[sim::flt(3)];
  f.short_write_pct = p[sim::flt(3)];
  f.eintr_pct = sim::flt(3) == 2 ? 30 : 0;
  return f;
}
void compare(const Store& want, const Store& got, const std::string& w, const char* how) {
  if (w != got.bytes()) sim::violation("round-trip", "%s read back %s differs: %zu bytes of content, expected %zu", want.kind.c_str(), how, got.bytes().size(), w.size());
}
void scenario(int tier) {
  sim::disk_reset();
  u32 nc = 1 + (u32)sim::wl(3);
  struct Client { u32 kind; Gr g; StoreP a, b; std::string want; int mode; char f1[32], f2[32]; bool dirty; Gr old; };
  std::vector<Client> cs(nc);
  bool shared = nc > 1 && sim::wl(3) == 0;   // all write the same object
  for (u32 i = 0; i < nc; i++) {
    auto& c = cs[i];
    c.kind = shared && i ? cs[0].kind : (u32)sim::wl(NKINDS);
    c.g = shared && i ? cs[0].g : io_graph(tier);
    c.dirty = sim::wl(3) == 0;
    if (c.dirty) c.old = io_graph(tier);
    c.mode = (int)sim::wl(3);
    snprintf(c.f1, sizeof c.f1, "/sim/a%u", i);
    snprintf(c.f2, sizeof c.f2, "/sim/b%u", i);
    if (sim::wl(4) == 0) { std::string junk(sim::wl(3000), 'x'); sim::disk_put(c.f1, junk.data(), junk.size()); }
    sim::note("client %u: %s, %u vertices, %zu edges%s", i, make_store(c.kind)->kind.c_str(), c.g.n, c.g.e.size(), c.dirty ? ", read into an object holding other data" : "");
  }
  sim::DiskFaults df = benign();
  sim::disk_faults(df);
  bool some = false;
  sim::run([&] {
    std::vector<int> ids;
    for (auto& c : cs) {
      sim::Quiet q;
      c.a = make_store(c.kind);
      c.a->fill(c.g);
      c.want = c.a->bytes();
      c.b = make_store(c.kind);
      if (c.dirty) c.b->fill(c.old);
    }
    for (auto& c : cs)
      ids.push_back(sim::client([&c, &cs, shared] {
        Store& a = shared ? *cs[0].a : *c.a;
        try {
          if (c.mode == 2 && a.streams()) {
            // two objects one after the other in one file
            auto b2 = c.b->copy();
            { std::ofstream o(c.f1, std::ofstream::binary); a.save(o); a.save(o); o.close(); if (!o) sim::violation("round-trip", "%s: writing to a stream failed", a.kind.c_str()); }
            std::ifstream i(c.f1, std::ifstream::binary);
            c.b->load(i);
            b2->load(i);
            compare(a, *b2, c.want, "second from a stream");
            if (i.peek() != EOF) sim::violation("round-trip", "%s: reading back left bytes in the stream", a.kind.c_str());
            sim::probe("stream");
          } else {
            a.save(std::string(c.f1));
            c.b->load(std::string(c.f1));
            sim::probe("file");
          }
          compare(a, *c.b, c.want, "from a file");
          if (c.mode == 1) {   // and written again: the same file
            c.b->save(std::string(c.f2));
            if (!same_file(c.f1, c.f2)) sim::violation("round-trip", "%s written, read and written again gives another file", a.kind.c_str());
          }
        } catch (const std::exception& e) {
          sim::violation("round-trip", "%s: %s", a.kind.c_str(), e.what());
        }
      }));
    for (int id : ids) sim::join_client(id);
    for (auto& c : cs) {
      Store& a = shared ? *cs[0].a : *c.a;
      compare(a, a, c.want, "(the original, after writing it)");
      if (!a.equals(*c.b)) sim::violation("round-trip", "%s: the copy read back compares unequal", a.kind.c_str());
      some |= !c.g.e.empty();
    }
  });
  if (sim::disk_open_handles()) sim::violation("handles", "%d files left open", sim::disk_open_handles());
  if (some && (df.short_read_pct || df.short_write_pct || df.eintr_pct || nc > 1)) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C18", scenario, "a run counts when transfers were shortened or interrupted, or several clients worked at once, on an object with edges; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
