// Internal interface of the simulator runtime (uninstrumented code only).
#pragma once
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>

namespace rt {

constexpr std::uintptr_t ARENA_LO = 0x200000000000ull;
constexpr std::uintptr_t ARENA_SZ = 1ull << 34;  // virtual, lazily touched
constexpr std::uintptr_t SHADOW_LO = 0x300000000000ull;
constexpr std::uintptr_t STACK_LO = 0x400000000000ull;
constexpr std::size_t    STACK_SZ = 4 << 20;
constexpr int            MAX_FIBERS = 300;
constexpr std::uintptr_t TRACE_SZ = 0;

struct Rng {
  std::uint64_t s;
  std::uint64_t next() {  // splitmix64
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

constexpr std::uint32_t LOG_CAP = 1u << 23;
constexpr int NPROBES = 96;
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_FAILSTOP_OK = 3, ST_ENGINE = 4, ST_RUNNING = 5 };

struct Log {
  std::uint32_t n;
  std::uint32_t v[LOG_CAP];
};
struct Named {
  char          name[40];
  std::uint64_t count;
};
// One per worker process, shared with the parent.
struct Shared {
  volatile int  status;
  char          cls[64];
  char          msg[1600];
  char          notes[65536];
  std::uint32_t notes_n;
  std::uint64_t hash, steps, switches, preempts, fibers, sim_ns, scen_hash, sched_hash;
  int           nontrivial;
  Named         faults[NPROBES];
  Named         probes[NPROBES];
  int           log_on;
  Log           log[sim::S_NSTREAMS];
};
extern Shared* g_sh;

struct Hot {
  int            active;      // instrumented code is being simulated
  int            wplain, watomic, wwatch;
  std::int64_t   countdown;
  std::uint64_t  steps;
  std::uint64_t  hash;
  std::uint64_t  lastpc;
};
extern Hot g;

struct Replay {
  bool                 on[sim::S_NSTREAMS];
  const std::uint32_t* v[sim::S_NSTREAMS];
  std::uint32_t        n[sim::S_NSTREAMS];
  std::uint32_t        i[sim::S_NSTREAMS];
};
extern Replay g_replay;

void seed_streams(std::uint64_t seed);
void begin_run_state();
[[noreturn]] void finish(Status st, const char* cls, const char* msg);
[[noreturn]] void engine_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// fibers
enum FState { F_FREE, F_RUN, F_BLOCK, F_DONE };
struct Fiber {
  int            id;
  FState         st;
  void*          sp;
  void (*fn)(void*);
  void*          arg;
  const void*    key;       // what it is blocked on
  std::uint64_t  until;     // timed block (sim ns), 0: none
  bool           timed_out;
  bool           worker;
  std::uint64_t  prio;
  std::uint64_t  stalled_until;
  void*          eh[2];     // __cxa_eh_globals
  int            err;
  void*          once[2];
  unsigned char* tls;
  // task scheduler state
  void*          arena;
  int            slot;
  struct EDX {
    void*          context;
    unsigned short original_slot, affinity_slot;
    void*          task_disp;
    std::intptr_t  isolation;
  } ed;
  int            depth;
  bool           detached, joined;
  void*          ret;
};
extern Fiber  g_f[MAX_FIBERS];
extern int    g_nf;
extern Fiber* g_cur;
extern int    g_P;         // concurrency limit
int   spawn_fiber(void (*fn)(void*), void* arg, bool worker);
void  block_on(const void* key, std::uint64_t until = 0);   // returns when woken (or timed out)
void  wake_all(const void* key);
void  wake_one(const void* key);
void  reschedule(bool forced);
void  yield_hint();
void  maybe_switch();

extern const char WORK_KEY;

// memory
void* arena_malloc(std::size_t n, std::size_t align);
void  arena_free(void* p);
std::size_t arena_size_of(void* p);
void  access_slow(std::uintptr_t a, std::size_t n, bool wr, std::uintptr_t pc);

struct Guard {  // engine code: no instrumentation
  int s;
  Guard() : s(g.active) { g.active = 0; }
  ~Guard() { g.active = s; }
};
void run_on_stack(void (*fn)(void*), void* arg);  // fixed address, so that runs do not depend on argv or the environment
void raw_write(int fd, const void* p, std::size_t n);
}  // namespace rt
