// Scenario shape shared by the single-call properties: one call on one graph, every interleaving from the seed.
#pragma once
#include "job.h"
namespace h {
inline void scenario_one(int tier, JobP (*make)(GraphCtx&), GenOpts o, bool simple, bool weights = false) {
  if (tier) o.large = o.large * 5 / 2;
  GraphCtx x;
  make_ctx(x, o, simple);
  note_graph(x.dir, weights);
  JobP j = make(x);
  sim::run([&] { j->run(); });
  j->check();
  ctx_unchanged(x);
  u32 live = 0;
  for (u32 v = 0; v < x.dir.n; v++) live += x.s_out.idx[v + 1] > x.s_out.idx[v];
  if (live >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
#define NT_RULE "a run counts when at least 3 vertices have a neighbour and at least 2 preemptions happened inside the call; distinct by the hash of all choices, accesses and switches"
}  // namespace h
