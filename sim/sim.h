// Deterministic simulator: API used by the harnesses (scenarios).
// Everything a scenario decides goes through wl() (workload stream) or flt() (fault stream);
// everything the simulated machine decides goes through the schedule and task streams.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

// ---- choice streams -------------------------------------------------------------------------
enum Stream { S_WORK = 0, S_SCHED = 1, S_TASK = 2, S_FAULT = 3, S_NSTREAMS = 4 };
std::uint64_t choose(Stream s, std::uint64_t n);              // uniform in [0,n), recorded; n>=1
std::uint32_t raw(Stream s, std::uint32_t v);                 // record v; on replay return the recorded value (0 past the end)
std::uint64_t rnd64(Stream s);                                // un-recorded helper for composing raw()
inline std::uint64_t wl(std::uint64_t n) { return choose(S_WORK, n); }
inline std::uint64_t wl(std::uint64_t lo, std::uint64_t hi) { return lo + choose(S_WORK, hi - lo + 1); }
inline bool          wlp(unsigned pct) { return choose(S_WORK, 100) >= 100 - pct; }  // default (0) is false
inline std::uint64_t flt(std::uint64_t n) { return choose(S_FAULT, n); }
inline bool          fltp(unsigned pct) { return choose(S_FAULT, 100) >= 100 - pct; }

// ---- running code under the simulator --------------------------------------------------------
struct RunOpts {
  int           threads      = 0;        // task-scheduler concurrency limit; 0: drawn from the task stream
  std::uint64_t step_budget  = 6000000;  // accesses before the scheduler turns fair
  std::uint64_t fair_budget  = 60000000; // further accesses allowed once fair: exceeded = no progress
};
void scale_budget(unsigned k);             // a large workload: the fair budget of every run() from here on is k times as big
void run_impl(void (*fn)(void*), void* arg, const RunOpts& o);
template <class F>
void run(F&& f, const RunOpts& o = {}) {
  auto* p = &f;
  run_impl([](void* a) { (**static_cast<decltype(p)*>(a))(); }, &p, o);
}
bool active();
// A client is an additional caller thread inside run().
int  client_impl(void (*fn)(void*), void* arg, void (*del)(void*));
void join_client(int id);
template <class F>
int client(F f) {
  auto* p = new F(static_cast<F&&>(f));
  return client_impl([](void* a) { (*static_cast<F*>(a))(); }, p, [](void* a) { delete static_cast<F*>(a); });
}
int           current_thread();
std::uint64_t now_steps();     // global event sequence number
std::uint64_t sim_nanos();     // simulated monotonic clock
std::uint64_t preemptions();   // so far in this run

// Uninstrumented section: no scheduling, no checks, no injected faults (oracle code).
struct Quiet {
  Quiet();
  ~Quiet();
  int saved;
};

// ---- verdicts --------------------------------------------------------------------------------
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void run_ok();    // end this run now, successfully
[[noreturn]] void failstop(const char* why); // the code under test stopped loudly (allowed only if a fault fired)
void              note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // narrative of the run, for replay files
void              mix(std::uint64_t v);   // fold a value into the run's hash
void              mark_nontrivial();
void              probe(const char* name);       // "this rare condition was hit"

// ---- faults ----------------------------------------------------------------------------------
void fault_fired(const char* name);
// operator new fails: the k-th call (1-based) after arming, counted over instrumented sections
void arm_alloc_failure(std::uint64_t kth);
void disarm_alloc_failure();
bool alloc_failure_fired();
std::uint64_t alloc_count();
std::uint64_t live_blocks();                    // blocks allocated by simulated code and not freed
void show_live_blocks();                        // into the notes
void arm_thread_failure(std::uint64_t kth);     // the k-th thread creation fails (EAGAIN)
void disarm_thread_failure();
bool thread_failure_fired();
void allow_failstop(bool on);      // terminate/abort/assert is an acceptable end of this run

// clock
void clock_jump_wall(std::int64_t ns);      // step of the wall clock (CLOCK_REALTIME)
void clock_advance(std::uint64_t ns);       // both clocks move on
std::uint64_t mono_ns();
std::int64_t  wall_ns();

// disk
struct DiskFaults {
  unsigned short_read_pct = 0, short_write_pct = 0, eintr_pct = 0;
  std::int64_t eio_read_at = -1;    // the n-th read call (0-based) fails with EIO
  std::int64_t eio_write_at = -1;   // the n-th write call fails
  std::int64_t capacity = -1;       // bytes the disk can hold: ENOSPC (after a short write)
  std::int64_t crash_write_at = -1; // machine stops inside the n-th write call
  bool         open_fails = false;
  bool         close_fails = false; // closing a file written to reports EIO, some of its tail never reached the disk
};
void        disk_reset();
void        disk_faults(const DiskFaults&);
bool        disk_fault_fired();                    // a non-benign fault fired since disk_faults()
void        disk_put(const char* name, const void* data, std::size_t n);
std::size_t disk_size(const char* name);           // (size_t)-1 if absent
const unsigned char* disk_data(const char* name);
void        disk_truncate(const char* name, std::size_t n);
std::uint64_t disk_reads();
std::uint64_t disk_writes();
int         disk_open_handles();
int         disk_mappings();        // memory mappings not released
}  // namespace sim

// Provided by each harness.
struct PropertyDef {
  const char* id;
  void (*scenario)(int tier);   // one simulated run
  const char* rule;
  const char* const* scenario_names;
};
extern const PropertyDef g_properties[];
extern const int         g_nproperties;
