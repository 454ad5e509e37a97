// Several callers, each with a list of jobs, on shared objects; one allocation may fail. The rules every call obeys.
#pragma once
#include "job.h"
#include <new>
namespace h {
struct Callers {
  std::vector<std::vector<JobP>> jobs;
  bool fired = false, overlap = false;
  u32  thrown = 0;
  static u32 draw_failure() {
    static const u32 spans[] = {4, 8, 16, 40, 150, 800};
    u32 k = sim::flt(3) ? (u32)sim::flt(spans[sim::flt(6)]) : 0;   // 0: none
    if (k) sim::note("allocation %u fails", k);
    return k;
  }
  template <class Unchanged>
  void run(u32 k, Unchanged unchanged) {
    u32 nt = (u32)jobs.size();
    std::vector<std::vector<char>>   threw(nt);
    std::vector<std::pair<u64, u64>> span(nt);
    for (u32 t = 0; t < nt; t++) threw[t].assign(jobs[t].size(), 0);
    sim::run([&] {
      std::vector<int> ids;
      ids.reserve(nt);
      auto work = [&](u32 t) {
        span[t].first = sim::now_steps();
        for (u32 r = 0; r < jobs[t].size(); r++) {
          try { jobs[t][r]->run(); }
          catch (const std::bad_alloc&) { threw[t][r] = 1; }
        }
        span[t].second = sim::now_steps();
      };
      for (u32 t = 1; t < nt; t++) ids.push_back(sim::client([&, t] { work(t); }));
      sim::arm_alloc_failure(k);   // from here on only calls of the library allocate
      work(0);
      for (int id : ids) sim::join_client(id);
      sim::disarm_alloc_failure();
    });
    fired = sim::alloc_failure_fired();
    for (u32 t = 0; t < nt; t++) for (u32 r = 0; r < jobs[t].size(); r++) {
      if (!threw[t][r]) jobs[t][r]->check();
      thrown += threw[t][r];
    }
    if (thrown > (fired ? 1u : 0u)) sim::violation("failure", "%u calls threw bad_alloc after %s", thrown, fired ? "one failed allocation" : "no failure");
    sim::note("%s", !fired ? "no failure" : thrown ? "one call threw" : "the failure was absorbed");
    unchanged();
    if (thrown) {   // the failed call made again
      sim::probe("failed call repeated");
      for (u32 t = 0; t < nt; t++) for (u32 r = 0; r < jobs[t].size(); r++) if (threw[t][r]) {
        sim::run([&] { jobs[t][r]->run(); });
        jobs[t][r]->check();
      }
      unchanged();
    }
    for (u32 a = 0; a < nt; a++) for (u32 b = 0; b < a; b++) overlap |= span[a].first < span[b].second && span[b].first < span[a].second;
    jobs.clear();
  }
};
inline void no_leak(std::uint64_t before) {
  if (sim::live_blocks() > before) {
    sim::show_live_blocks();
    sim::violation("leak", "%llu blocks are still allocated after the calls", (unsigned long long)(sim::live_blocks() - before));
  }
}
}  // namespace h
