// Several callers at once on the same graph objects: each result is exact, the graphs stay as they were.
#include "job.h"
#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
using namespace h;
namespace {
void scenario(int tier) {
  GenOpts o;
  o.small = 10; o.medium = 36; o.large = tier ? 150 : 70;
  o.huge = 1;
  static const u32 mw[] = {1, 3, 20, 200};
  o.maxw = mw[sim::wl(4)];
  GraphCtx x;
  make_ctx(x, o, true);
  note_graph(x.dir, true);
  using Make = JobP (*)(GraphCtx&);
  static const Make makes[] = {make_bfs, make_cc, make_sssp, make_pr, make_tc, make_bc};
  u32 nt = 2 + (u32)sim::wl(3), rounds = 1 + (u32)sim::wl(2);
  std::vector<std::vector<JobP>> jobs(nt);
  for (u32 t = 0; t < nt; t++)
    for (u32 r = 0; r < rounds; r++) {
      sim::note("caller %u:", t);
      jobs[t].push_back(makes[sim::wl(6)](x));
    }
  std::vector<std::pair<u64, u64>> span(nt);
  // The callers are threads, or tasks of the pool itself: a task that waits for its own work may run another caller in the meantime.
  bool tasks = sim::wlp(25);
  if (tasks) { sim::note("the callers are tasks"); sim::probe("callers are tasks"); }
  else sim::probe("callers are threads");
  sim::run([&] {
    std::vector<int> ids;
    auto work = [&](u32 t) { span[t].first = sim::now_steps(); for (auto& j : jobs[t]) j->run(); span[t].second = sim::now_steps(); };
    if (tasks) {
      tbb::parallel_for(tbb::blocked_range<u32>(0, nt, 1), [&](const tbb::blocked_range<u32>& r) { for (u32 t = r.begin(); t != r.end(); t++) work(t); }, tbb::simple_partitioner{});
      return;
    }
    for (u32 t = 1; t < nt; t++) ids.push_back(sim::client([&, t] { work(t); }));
    work(0);
    for (int id : ids) sim::join_client(id);
  });
  for (u32 t = 0; t < nt; t++) for (auto& j : jobs[t]) j->check();
  ctx_unchanged(x);
  bool overlap = false;
  for (u32 a = 0; a < nt; a++) for (u32 b = 0; b < a; b++) overlap |= span[a].first < span[b].second && span[b].first < span[a].second;
  if (overlap && x.dir.e.size() >= 3 && sim::preemptions() >= 3) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C15", scenario, "a run counts when calls of at least 2 callers overlapped in time on a graph of at least 3 arcs, with at least 3 preemptions; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
