// A failing allocation or thread creation: the call gives the exact result or stops loudly, the graph is unharmed, nothing is leaked.
#include "job.h"
#include <new>
#include <system_error>
using namespace h;
namespace {
void scenario(int tier) {
  GenOpts o;
  o.small = 10; o.medium = 36; o.large = tier ? 150 : 90;
  o.huge = 1;
  static const u32 mw[] = {1, 3, 20, 200};
  o.maxw = mw[sim::wl(4)];
  GraphCtx x;
  make_ctx(x, o, true);
  note_graph(x.dir, true);
  using Make = JobP (*)(GraphCtx&);
  static const Make makes[] = {make_bfs, make_cc, make_sssp, make_pr, make_tc, make_bc};
  JobP j = makes[sim::wl(6)](x), after = makes[sim::wl(6)](x);
  static const u32 spans[] = {4, 8, 16, 40, 150, 800};
  u32 k = (u32)sim::flt(spans[sim::flt(6)]);   // 0: none
  u32 kt = sim::flt(4) == 3 ? 1 + (u32)sim::flt(6) : 0;
  if (kt) k = 0;
  if (k) sim::note("allocation %u fails", k);
  if (kt) sim::note("thread creation %u fails", kt);
  sim::allow_failstop(true);
  const char* how = "returned";
  std::uint64_t before = sim::live_blocks();
  bool threw = false;
  sim::run([&] {
    sim::arm_alloc_failure(k);
    sim::arm_thread_failure(kt);
    try { j->run(); }
    catch (const std::bad_alloc&) { threw = true; how = "threw bad_alloc"; }
    catch (const std::system_error&) { threw = true; how = "threw system_error"; }
    sim::disarm_alloc_failure();
    sim::disarm_thread_failure();
  });
  sim::allow_failstop(false);
  bool fired = sim::alloc_failure_fired() || sim::thread_failure_fired();
  sim::note("%s %s, %s", j->name.c_str(), how, fired ? "after a failure" : "no failure reached it");
  if (threw && !fired) sim::violation("failure", "%s %s although nothing had failed", j->name.c_str(), how);
  if (!threw) j->check();
  ctx_unchanged(x);
  if (threw) sim::probe("reported by exception"); else if (fired) sim::probe("absorbed, result exact");
  std::string name = j->name;
  j.reset();
  if (sim::live_blocks() != before) {
    sim::show_live_blocks();
    sim::violation("leak", "%s %s and left %llu blocks allocated", name.c_str(), how, (unsigned long long)(sim::live_blocks() - before));
  }
  sim::run([&] { after->run(); });
  after->check();
  ctx_unchanged(x);
  if (fired) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C16", scenario, "a run counts when an injected allocation or thread-creation failure hit the call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
