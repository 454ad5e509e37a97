// Simulator core: choice streams, fibers and scheduler, memory, and the entry points the compiler's
// thread instrumentation calls before every memory access and instead of every atomic operation.
#include "rt.h"
#include <cerrno>
#include <cstdlib>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <exception>
#include <cxxabi.h>
#include <asm/prctl.h>

extern "C" char __libc_single_threaded;
namespace rt {

Shared* g_sh;
Hot     g;
Replay  g_replay;
static Rng g_rng[sim::S_NSTREAMS];

// ---------------------------------------------------------------------------------------------
// choice streams
static inline std::uint32_t record(int s, std::uint32_t v) {
  if (g_sh->log_on) {
    Log& l = g_sh->log[s];
    if (l.n < LOG_CAP) l.v[l.n] = v;
    l.n++;
  }
  return v;
}
static bool replayed(int s, std::uint32_t& v) {
  if (!g_replay.on[s]) return false;
  v = g_replay.i[s] < g_replay.n[s] ? g_replay.v[s][g_replay.i[s]] : 0;
  g_replay.i[s]++;
  return true;
}
void seed_streams(std::uint64_t seed) {
  Rng r{seed ^ 0x5851f42d4c957f2dull};
  for (auto& x : g_rng) x.s = r.next();
}

// ---------------------------------------------------------------------------------------------
// fibers
Fiber  g_f[MAX_FIBERS];
int    g_nf;
Fiber* g_cur;
int    g_P = 4;
const char WORK_KEY = 0;
static std::uint64_t g_clock_mono, g_clock_adv_steps;
static std::int64_t  g_wall_off;
static unsigned char* g_tls_base;
static std::size_t    g_tls_sz;
static const void*    g_tls_img;
static std::size_t    g_tls_img_sz;
static void*          g_main_sp;
static int            g_run_done;
static std::uint64_t  g_step_budget, g_fair_budget;
static bool           g_fair;
static int            g_rr;
extern "C" void sim_switch(void** save, void* to);
extern "C" void sim_fiber_entry();
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorq %rbp,%rbp
  call sim_fiber_main
  hlt
  .cfi_endproc
.size sim_fiber_entry,.-sim_fiber_entry
)");

static void find_tls() {
  struct L {
    static int cb(dl_phdr_info* i, size_t, void*) {
      if (i->dlpi_name && i->dlpi_name[0]) return 0;
      for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
          auto& p = i->dlpi_phdr[k];
          std::size_t al = p.p_align ? p.p_align : 1;
          std::size_t sz = (p.p_memsz + al - 1) / al * al;
          unsigned long fs;
          syscall(SYS_arch_prctl, ARCH_GET_FS, &fs);
          g_tls_base   = (unsigned char*)(fs - sz);
          g_tls_sz     = p.p_memsz;
          g_tls_img    = (const void*)(i->dlpi_addr + p.p_vaddr);
          g_tls_img_sz = p.p_filesz;
        }
      return 1;
    }
  };
  dl_iterate_phdr(&L::cb, nullptr);
}

namespace {
struct Globals { void* caught; unsigned uncaught; };
}
static void save_ctx(Fiber* f) {
  auto* gl = (Globals*)abi::__cxa_get_globals();
  f->eh[0] = gl->caught;
  f->eh[1] = (void*)(std::uintptr_t)gl->uncaught;
  f->err   = errno;
  if (g_tls_sz) {
    if (!f->tls) f->tls = (unsigned char*)arena_malloc(g_tls_sz, 16);
    memcpy(f->tls, g_tls_base, g_tls_sz);
  }
}
static void load_ctx(Fiber* f) {
  auto* gl = (Globals*)abi::__cxa_get_globals();
  gl->caught   = f->eh[0];
  gl->uncaught = (unsigned)(std::uintptr_t)f->eh[1];
  errno        = f->err;
  if (g_tls_sz) {
    if (f->tls) memcpy(g_tls_base, f->tls, g_tls_sz);
    else {
      memset(g_tls_base, 0, g_tls_sz);
      memcpy(g_tls_base, g_tls_img, g_tls_img_sz);
    }
  }
}
void once_save(void** p);   // libc.cpp
void once_load(void** p);

static void switch_to(Fiber* t) {
  Fiber* me = g_cur;
  if (t == me) return;
  save_ctx(me);
  once_save(me->once);
  g_cur = t;
  g_sh->switches++;
  sim_switch(&me->sp, t->sp);
  load_ctx(g_cur);
  once_load(g_cur->once);
}

extern "C" void sim_fiber_main() {
  load_ctx(g_cur);
  once_load(g_cur->once);
  Fiber* f = g_cur;
  g.active = 1;
  try {
    f->fn(f->arg);
  } catch (...) {
    g.active = 0;
    std::terminate();
  }
  g.active = 0;
  f->st    = F_DONE;
  wake_all(f);
  reschedule(true);
  engine_error("dead fiber resumed");
}

int spawn_fiber(void (*fn)(void*), void* arg, bool worker) {
  int id = -1;
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == F_DONE && g_f[i].detached) { id = i; break; }
  if (id < 0) {
    if (g_nf >= MAX_FIBERS) engine_error("too many simulated threads");
    id = g_nf++;
  }
  Fiber& f = g_f[id];
  unsigned char* tls = f.tls;
  memset(&f, 0, sizeof f);
  (void)tls;
  f.id     = id;
  f.fn     = fn;
  f.arg    = arg;
  f.worker = worker;
  f.slot   = -1;
  f.st     = F_RUN;
  f.prio   = (sim::rnd64(sim::S_SCHED) >> 8) | 1;
  char* lo = (char*)STACK_LO + (std::size_t)id * (STACK_SZ + 65536);
  if (mmap(lo + 65536, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED)
    engine_error("stack mmap");
  void** sp = (void**)(lo + 65536 + STACK_SZ - 64);
  *--sp = nullptr; *--sp = nullptr;
  *--sp = (void*)&sim_fiber_entry;   // return address
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f.sp = sp;
  g_sh->fibers++;
  return id;
}

// ---------------------------------------------------------------------------------------------
// scheduling
enum Strategy { RW, PCT, ATOM, SERIAL, WATCH, STALL, NSTRAT };
static int           g_strat;
static std::uint64_t g_mean;
static std::uint64_t g_lastdec;
static std::uint64_t g_lowprio;
static std::uint64_t g_stall_pct;
std::uint64_t g_wmask = 0, g_wval = 1;   // watched address class
static bool g_burst;
constexpr std::int64_t QUANTUM = 30000;
constexpr std::int64_t UNIT = 1 << 16;    // weight of an access that counts, where most do not
constexpr std::uint32_t RUN_MARK = 0xfffffffeu;   // in the schedule log: a call of sim::run begins (followed by 0) or ends (by 1)
constexpr std::int64_t PLANMAX = 8000000;  // replay: longest stretch without a planned decision

static void init_strategy() {
  g.wplain = g.watomic = 1;
  g.wwatch = 0;
  g_wmask = 0; g_wval = 1;
  g_strat  = SERIAL;
  g_mean   = 1000;
  g_burst  = false;
  g_stall_pct = 0;
  if (g_replay.on[sim::S_SCHED]) return;
  static const int mixv[] = {RW, RW, RW, PCT, PCT, ATOM, ATOM, SERIAL, WATCH, WATCH, STALL, RW};
  Rng& r  = g_rng[sim::S_SCHED];
  g_strat = mixv[r.next() % (sizeof mixv / sizeof *mixv)];
  static const int means[] = {3, 8, 20, 50, 100, 200, 500, 1000, 3000, 10000};
  g_mean = means[r.next() % 10];
  g_burst = r.next() % 3 == 0;
  switch (g_strat) {
    case RW: {
      static const int w[] = {1, 1, 1, 4, 16};
      g.watomic = w[r.next() % 5];
    } break;
    case ATOM: {
      g.watomic = UNIT;
      static const int am[] = {1, 2, 3, 5, 10, 30};
      g_mean = am[r.next() % 6];
    } break;
    case WATCH: {
      g.wwatch = UNIT;
      static const int bits[] = {3, 4, 5, 6, 8};
      int b = bits[r.next() % 5];
      g_wmask = ((1ull << b) - 1) << 2;       // 4-byte granules
      g_wval  = (r.next() << 2) & g_wmask;
      g_mean  = 1 + r.next() % 4;
    } break;
    case STALL:
      g_stall_pct = 5 + r.next() % 40;
      break;
    default: break;
  }
}

static std::int64_t draw_gap() {
  Rng& r = g_rng[sim::S_SCHED];
  switch (g_strat) {
    case RW: case STALL: {
      if (g_burst && r.next() % 6 == 0) return 1 + r.next() % 4;
      std::uint64_t k = 1 + r.next() % (2 * g_mean);
      return (std::int64_t)k;
    }
    case ATOM: return UNIT * (1 + (std::int64_t)(r.next() % (2 * g_mean)));
    case PCT: return 1 + (std::int64_t)(r.next() % (1ull << (2 + r.next() % 15)));
    case WATCH: return UNIT * (1 + (std::int64_t)(r.next() % g_mean));
    default: return QUANTUM;
  }
}

static void pair_cov(std::uint64_t pc);

// forced: the current fiber cannot continue (blocked or done)
void reschedule(bool forced) {
  Fiber* me = g_cur;
  for (;;) {
    // wake expired timed waits
    int cand[MAX_FIBERS], n = 0;
    for (int i = 0; i < g_nf; i++)
      if (g_f[i].st == F_RUN) cand[n++] = i;
    if (n == 0) {
      // advance the clock to the earliest timed wait
      Fiber* best = nullptr;
      for (int i = 0; i < g_nf; i++)
        if (g_f[i].st == F_BLOCK && g_f[i].until && (!best || g_f[i].until < best->until)) best = &g_f[i];
      if (!best) {
        finish(ST_VIOLATION, "deadlock", "no simulated thread can run and the caller has not returned");
      }
      if (sim::mono_ns() < best->until) g_clock_mono += best->until - sim::mono_ns();
      best->st = F_RUN;
      best->timed_out = true;
      continue;
    }
    if (!g_fair && g.steps > g_step_budget) {
      g_fair = true;
      g.wplain = g.watomic = 1;
      g.wwatch = 0;
      g_wmask = 0; g_wval = 1;
      record(sim::S_SCHED, forced ? 0xffffffffu : (std::uint32_t)(g.steps - g_lastdec));
      record(sim::S_SCHED, 0);
    }
    if (g.steps > g_step_budget + g_fair_budget)
      finish(ST_VIOLATION, "no-progress", "the call had not returned after the step budget, although every thread was being scheduled fairly");
    int pick = -1;
    std::int64_t gap = QUANTUM;
    std::uint64_t elapsed = g.steps - g_lastdec;
    if (g_fair) {
      for (int k = 1; k <= g_nf; k++) {
        int c = (g_rr + k) % g_nf;
        if (g_f[c].st == F_RUN) { pick = c; break; }
      }
      g_rr = pick;
      gap  = 400;
    } else if (g_replay.on[sim::S_SCHED]) {
      auto& R = g_replay;
      const int s = sim::S_SCHED;
      std::uint32_t a = 0, b = 0;
      bool have = R.i[s] + 1 < R.n[s] && R.v[s][R.i[s]] != RUN_MARK;
      if (have) { a = R.v[s][R.i[s]]; b = R.v[s][R.i[s] + 1]; R.i[s] += 2; }
      (void)a;
      if (have && (int)b < g_nf && g_f[b].st == F_RUN) pick = (int)b;
      else if (!forced && !have && me->st == F_RUN && elapsed < (std::uint64_t)QUANTUM) pick = me->id;
      else {
        for (int k = 1; k <= g_nf; k++) {
          int c = (me->id + k) % g_nf;
          if (g_f[c].st == F_RUN) { pick = c; break; }
        }
      }
      // next planned preemption
      if (R.i[s] + 1 < R.n[s]) {
        std::uint32_t na = R.v[s][R.i[s]];
        gap = na >= RUN_MARK ? PLANMAX : (std::int64_t)na;
      }
    } else {
      Rng& r = g_rng[sim::S_SCHED];
      if (g_strat == PCT) {
        if (!forced) me->prio = g_lowprio = g_lowprio ? g_lowprio - 1 : (1u << 20);
        for (int k = 0; k < n; k++)
          if (pick < 0 || g_f[cand[k]].prio > g_f[pick].prio) pick = cand[k];
      } else {
        if (g_strat == STALL) {
          int m = 0, tmp[MAX_FIBERS];
          for (int k = 0; k < n; k++)
            if (g_f[cand[k]].stalled_until <= g.steps) tmp[m++] = cand[k];
          if (m) { n = m; memcpy(cand, tmp, sizeof(int) * m); }
          else if (n) sim::fault_fired("stalled-thread-had-to-run");
          if (!forced && r.next() % 100 < g_stall_pct) {
            me->stalled_until = g.steps + (1ull << (6 + r.next() % 12));
            sim::fault_fired("thread-stall");
          }
        }
        pick = cand[r.next() % n];
      }
      gap = draw_gap();
    }
    if (!g_fair) {
      record(sim::S_SCHED, forced ? 0xffffffffu : (std::uint32_t)elapsed);
      record(sim::S_SCHED, (std::uint32_t)pick);
    }
    g_lastdec   = g.steps;
    g.countdown = gap;
    g.hash      = (g.hash ^ (g.steps * 0x9e3779b97f4a7c15ull + (std::uint64_t)pick)) * 0xff51afd7ed558ccdull;
    g.hash ^= g.hash >> 31;
    g_sh->sched_hash = (g_sh->sched_hash ^ (elapsed * 31 + (std::uint64_t)pick)) * 0x9fb21c651e98df25ull;
    if (!forced && pick != me->id) { g_sh->preempts++; pair_cov(g.lastpc); }
    if (forced && pick == me->id && me->st != F_RUN) engine_error("picked a blocked fiber");
    switch_to(&g_f[pick]);
    return;
  }
}

static void pair_cov(std::uint64_t pc) {
  extern std::uint32_t* g_pairmap;
  static std::uint64_t last;
  std::uint64_t h = (pc * 0x9e3779b97f4a7c15ull) ^ (last * 0xc2b2ae3d27d4eb4full);
  h ^= h >> 29;
  if (g_pairmap) {
    std::uint32_t b = h & ((1u << 22) - 1);
    __atomic_fetch_or(&g_pairmap[b >> 5], 1u << (b & 31), __ATOMIC_RELAXED);
  }
  last = pc;
}
std::uint32_t* g_pairmap;

void block_on(const void* key, std::uint64_t until) {
  Fiber* me = g_cur;
  me->key       = key;
  me->until     = until;
  me->timed_out = false;
  me->st        = F_BLOCK;
  reschedule(true);
  me->until = 0;
}
void wake_all(const void* key) {
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == F_BLOCK && g_f[i].key == key) g_f[i].st = F_RUN;
}
void wake_one(const void* key) {
  int c[MAX_FIBERS], n = 0;
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == F_BLOCK && g_f[i].key == key) c[n++] = i;
  if (!n) return;
  g_f[c[n == 1 ? 0 : sim::choose(sim::S_TASK, n)]].st = F_RUN;
}
void yield_hint() {  // sched_yield and friends: let someone else run
  if (!g_cur) return;
  Guard gd;
  if (g_strat == PCT) g_cur->prio = g_lowprio = g_lowprio ? g_lowprio - 1 : (1u << 20);
  g.steps++;
  reschedule(false);
}
void maybe_switch() {  // a visible operation of the runtime itself
  if (!g_cur) return;
  g.steps++;
  g.countdown -= g.watomic ? g.watomic : 1;
  if (g.countdown <= 0) reschedule(false);
}

static void __attribute__((noinline)) slow(std::uint64_t pc) {
  Guard gd;
  g.lastpc = pc;
  reschedule(false);
}

// ---------------------------------------------------------------------------------------------
// end of a run
void finish(Status st, const char* cls, const char* msg) {
  g.active = 0;
  g_sh->hash   = g.hash ^ (g.steps * 0x2545f4914f6cdd1dull);
  g_sh->steps  = g.steps;
  g_sh->sim_ns = sim::mono_ns();
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls ? cls : "");
  snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg ? msg : "");
  g_sh->status = st;
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
void engine_error(const char* fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finish(ST_ENGINE, "engine", b);
}

// ---------------------------------------------------------------------------------------------
// memory: a private arena at a fixed address, no reuse within a run, byte-exact validity in 8-byte granules
static std::uintptr_t g_brk = ARENA_LO;
static unsigned char  g_fill_mode;
static std::uint64_t  g_alloc_n, g_alloc_fail_at;
static bool           g_alloc_fired;
static bool           g_mem_ready;
struct Hdr { std::uint64_t size; std::uint64_t magic; };   // 16 bytes before every block
constexpr std::uint64_t LIVE = 0x4c49564521424c4bull, LIVE_USER = 0x5553455221424c4bull, DEAD = 0x4445414421424c4bull;
static std::uint64_t g_live_user;        // blocks allocated by simulated code and not freed
void mark_user_block(void* p) {
  if (!p || !g.active) return;
  ((Hdr*)((std::uintptr_t)p - sizeof(Hdr)))->magic = LIVE_USER;
  g_live_user++;
}

static inline unsigned char* shadow(std::uintptr_t a) { return (unsigned char*)(SHADOW_LO + ((a - ARENA_LO) >> 3)); }
static void set_valid(std::uintptr_t a, std::size_t n) {  // a 8-aligned
  unsigned char* s = shadow(a);
  memset(s, 8, n >> 3);
  if (n & 7) s[n >> 3] = n & 7;
}
static void mem_init() {
  g_mem_ready = true;
  if (mmap((void*)ARENA_LO, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED ||
      mmap((void*)SHADOW_LO, ARENA_SZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) {
    raw_write(2, "arena mmap failed\n", 18);
    syscall(SYS_exit_group, 3);
  }
}
static std::uint64_t g_freed_bytes;
void* arena_malloc(std::size_t n, std::size_t align) {
  if (__builtin_expect(!g_mem_ready, 0)) mem_init();
  if (align < 16) align = 16;
  if (n > (ARENA_SZ >> 2)) return nullptr;
  std::uintptr_t p = (g_brk + sizeof(Hdr) + 16 + align - 1) & ~(align - 1);
  if (p + n + 64 > ARENA_LO + ARENA_SZ) return nullptr;
  g_brk = (p + n + 7) & ~7ull;
  Hdr* h   = (Hdr*)(p - sizeof(Hdr));
  h->size  = n;
  h->magic = LIVE;
  set_valid(p, n);
  switch (g_fill_mode) {
    case 0: break;
    case 1: memset((void*)p, 0xff, n); break;
    case 2: memset((void*)p, 0x01, n); break;
    case 3: memset((void*)p, 0xa5, n); break;
    default: {
      std::uint64_t z = p * 0x9e3779b97f4a7c15ull;
      for (std::size_t i = 0; i + 8 <= n; i += 8) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; memcpy((char*)p + i, &z, 8); }
    }
  }
  return (void*)p;
}
void arena_free(void* ptr) {
  if (!ptr) return;
  std::uintptr_t p = (std::uintptr_t)ptr;
  if (p - ARENA_LO >= ARENA_SZ) { if (g_cur) finish(ST_VIOLATION, "memory", "free of a pointer that was never allocated"); return; }
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  if (h->magic == LIVE_USER) g_live_user--;
  else if (h->magic != LIVE) {
    finish(ST_VIOLATION, "memory", h->magic == DEAD ? "double free" : "free of a pointer that was never allocated");
  }
  h->magic = DEAD;
  memset(shadow(p), 0, (h->size + 7) >> 3);
}
std::size_t arena_size_of(void* p) { return ((Hdr*)((std::uintptr_t)p - sizeof(Hdr)))->size; }

void access_slow(std::uintptr_t a, std::size_t n, bool wr, std::uintptr_t pc) {
  for (std::uintptr_t b = a; b < a + n; b++) {
    if (b - ARENA_LO >= ARENA_SZ) break;
    unsigned char s = *shadow(b);
    if (s == 8 || (b & 7) < s) continue;
    Guard gd;
    char m[256];
    snprintf(m, sizeof m, "%s of %zu byte(s) outside any live object (or past the end of a container)", wr ? "write" : "read", n);
    (void)pc;
    g_sh->scen_hash ^= 0;
    char w[64];
    snprintf(w, sizeof w, "memory");
    sim::note("invalid %s at code address 0x%lx", wr ? "write" : "read", (unsigned long)pc);
    finish(ST_VIOLATION, w, m);
  }
}

void begin_run_state() {
  if (!g_mem_ready) mem_init();
  __libc_single_threaded = 0;
  g.hash = 0x1234567;
  g_nf   = 0;
  g_brk  = ARENA_LO + (64ull << 20);   // runs do not depend on what the driver allocated
  g_fill_mode = (unsigned char)sim::choose(sim::S_TASK, 6);
  find_tls();
}
void raw_write(int fd, const void* p, std::size_t n) {
  while (n) {
    long k = syscall(SYS_write, fd, p, n);
    if (k <= 0) return;
    p = (const char*)p + k;
    n -= k;
  }
}

// task scheduler hooks
void tasks_begin(int P);
void tasks_end();

static void (*g_rs_fn)(void*);
static void* g_rs_arg;
static void* g_rs_back;
static void* g_rs_me;
extern "C" void sim_rs_main() {
  g_rs_fn(g_rs_arg);
  sim_switch(&g_rs_me, g_rs_back);
}
extern "C" void sim_rs_entry();
asm(R"(
.text
.globl sim_rs_entry
sim_rs_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorq %rbp,%rbp
  call sim_rs_main
  hlt
  .cfi_endproc
)");
void run_on_stack(void (*fn)(void*), void* arg) {
  g_rs_fn  = fn;
  g_rs_arg = arg;
  std::size_t sz = 64ull << 20;
  char* lo = (char*)STACK_LO - (1ull << 30);
  if (mmap(lo, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) engine_error("stack mmap");
  void** sp = (void**)(lo + sz - 64);
  asm("" : "+r"(sp));
  *--sp = nullptr; *--sp = nullptr;
  *--sp = (void*)&sim_rs_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  sim_switch(&g_rs_back, sp);
}
struct MainArg { void (*fn)(void*); void* arg; };
static void main_fiber(void* a) {
  auto* m = (MainArg*)a;
  m->fn(m->arg);
  Guard gd;
  g_run_done = 1;
  save_ctx(g_cur);
  Fiber* me = g_cur;
  sim_switch(&me->sp, g_main_sp);
}
}  // namespace rt

using namespace rt;

// ---------------------------------------------------------------------------------------------
// sim API
namespace sim {
std::uint64_t rnd64(Stream s) { return g_rng[s].next(); }
std::uint64_t choose(Stream s, std::uint64_t n) {
  if (n <= 1) return 0;
  std::uint32_t v;
  if (replayed(s, v)) v = n > 0xffffffffull ? v : (std::uint32_t)(v % n);
  else v = (std::uint32_t)(g_rng[s].next() % (n > 0xffffffffull ? 0xffffffffull : n));
  record(s, v);
  g.hash = (g.hash + v + 1) * 0xd6e8feb86659fd93ull;
  g.hash ^= g.hash >> 32;
  if (s == S_WORK || s == S_FAULT) g_sh->scen_hash = (g_sh->scen_hash ^ (v + 0x51ull)) * 0x9fb21c651e98df25ull;
  return v;
}
std::uint32_t raw(Stream s, std::uint32_t v) {
  std::uint32_t x;
  if (replayed(s, x)) v = x;
  record(s, v);
  return v;
}
bool          active() { return g_cur != nullptr; }
int           current_thread() { return g_cur ? g_cur->id : -1; }
std::uint64_t now_steps() { return g.steps; }
std::uint64_t mono_ns() { return g_clock_mono + g.steps * 10; }
std::int64_t  wall_ns() { return 1700000000000000000ll + (std::int64_t)mono_ns() + g_wall_off; }
std::uint64_t sim_nanos() { return mono_ns(); }
std::uint64_t preemptions() { return g_sh->preempts; }
void clock_jump_wall(std::int64_t ns) { g_wall_off += ns; fault_fired(ns < 0 ? "wall-clock-step-back" : "wall-clock-step-forward"); }
void clock_advance(std::uint64_t ns) { g_clock_mono += ns; }

Quiet::Quiet() : saved(g.active) { g.active = 0; }
Quiet::~Quiet() { g.active = saved; }

static unsigned g_budget_scale = 1;
void scale_budget(unsigned k) { g_budget_scale = k; }
void run_impl(void (*fn)(void*), void* arg, const RunOpts& o) {
  Guard gd;
  static const int Ps[] = {2, 3, 4, 2, 3, 4, 5, 6, 8, 1};
  g_P = o.threads ? o.threads : Ps[choose(S_TASK, 10)];
  g_step_budget = g.steps + o.step_budget;
  g_fair_budget = o.fair_budget * g_budget_scale;
  g_fair        = false;
  g_nf          = 0;
  g_run_done    = 0;
  for (auto& f : g_f) { f.st = F_FREE; f.detached = false; f.tls = nullptr; }
  init_strategy();
  Fiber host{};
  g_cur = &host;
  save_ctx(&host);
  once_save(host.once);
  MainArg ma{fn, arg};
  int id = spawn_fiber(&main_fiber, &ma, false);
  // the main thread keeps the process's own TLS image
  if (g_tls_sz) {
    g_f[id].tls = (unsigned char*)arena_malloc(g_tls_sz, 16);
    memcpy(g_f[id].tls, g_tls_base, g_tls_sz);
  }
  tasks_begin(g_P);
  g_lastdec   = g.steps;
  if (g_replay.on[S_SCHED]) {
    auto& R = g_replay;
    g.countdown = QUANTUM;
    // go on with the choices of this run, wherever the one before ended
    std::uint32_t at = R.i[S_SCHED];
    while (at + 1 < R.n[S_SCHED] && (R.v[S_SCHED][at] != RUN_MARK || R.v[S_SCHED][at + 1])) at += 2;
    if (at + 1 < R.n[S_SCHED]) R.i[S_SCHED] = at + 2;
    if (R.i[S_SCHED] + 1 < R.n[S_SCHED])
      g.countdown = R.v[S_SCHED][R.i[S_SCHED]] < RUN_MARK ? (std::int64_t)R.v[S_SCHED][R.i[S_SCHED]] : PLANMAX;
  } else
    g.countdown = draw_gap();
  record(S_SCHED, RUN_MARK);
  record(S_SCHED, 0);
  g_cur = &g_f[id];
  sim_switch(&g_main_sp, g_f[id].sp);
  // back here when the main fiber returned
  record(S_SCHED, RUN_MARK);
  record(S_SCHED, 1);
  load_ctx(&host);
  if (g_f[id].tls) memcpy(g_tls_base, g_f[id].tls, g_tls_sz);
  once_load(host.once);
  tasks_end();
  g_cur = nullptr;
}

static struct ClientRec { void (*fn)(void*); void* arg; void (*del)(void*); } g_cl[MAX_FIBERS];
int client_impl(void (*fn)(void*), void* arg, void (*del)(void*)) {
  Guard gd;
  int id = spawn_fiber(fn, arg, false);
  g_cl[id] = {fn, arg, del};
  maybe_switch();
  return id;
}
void join_client(int id) {
  Guard gd;
  while (g_f[id].st != F_DONE) block_on(&g_f[id]);
  g_cl[id].del(g_cl[id].arg);
}

void violation(const char* cls, const char* fmt, ...) {
  g.active = 0;
  char b[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finish(ST_VIOLATION, cls, b);
}
static bool g_allow_failstop;
void run_ok() { finish(ST_OK, "", ""); }
void allow_failstop(bool on) { g_allow_failstop = on; }
void failstop(const char* why) {
  g.active = 0;
  if (g_allow_failstop) finish(ST_FAILSTOP_OK, "failstop", why);
  finish(ST_VIOLATION, "abort", why);
}
void note(const char* fmt, ...) {
  if (!g_sh->log_on) return;
  va_list ap;
  va_start(ap, fmt);
  int room = (int)sizeof g_sh->notes - (int)g_sh->notes_n;
  if (room > 2) {
    int k = vsnprintf(g_sh->notes + g_sh->notes_n, room - 1, fmt, ap);
    if (k >= room - 1) k = room - 2;
    g_sh->notes_n += k;
    g_sh->notes[g_sh->notes_n++] = '\n';
  }
  va_end(ap);
}
void mix(std::uint64_t v) {
  g.hash = (g.hash ^ v) * 0xd6e8feb86659fd93ull;
  g.hash ^= g.hash >> 32;
}
void mark_nontrivial() { g_sh->nontrivial = 1; }
static void bump(Named* t, const char* name) {
  for (int i = 0; i < NPROBES; i++) {
    if (!t[i].name[0]) snprintf(t[i].name, sizeof t[i].name, "%s", name);
    if (!strncmp(t[i].name, name, sizeof t[i].name - 1)) { t[i].count++; return; }
  }
}
void probe(const char* name) { bump(g_sh->probes, name); }
void fault_fired(const char* name) { bump(g_sh->faults, name); }
void arm_alloc_failure(std::uint64_t k) { g_alloc_n = 0; g_alloc_fail_at = k; g_alloc_fired = false; }
void disarm_alloc_failure() { g_alloc_fail_at = 0; }
bool alloc_failure_fired() { return g_alloc_fired; }
std::uint64_t alloc_count() { return g_alloc_n; }
std::uint64_t live_blocks() { return g_live_user; }
void show_live_blocks() {
  int n = 0;
  for (std::uintptr_t a = ARENA_LO + (64ull << 20); a + sizeof(Hdr) <= g_brk && n < 20; a += 8)
    if (((Hdr*)a)->magic == LIVE_USER) note("not freed: block of %lu bytes", (unsigned long)((Hdr*)a)->size), n++;
}
}  // namespace sim

namespace rt {
bool alloc_should_fail() {
  if (!g.active) return false;
  ++g_alloc_n;
  if (g_alloc_fail_at && g_alloc_n == g_alloc_fail_at) {
    g_alloc_fired = true;
    sim::fault_fired("allocation-failure");
    return true;
  }
  return false;
}
static inline bool watched(std::uintptr_t a) { return (a & g_wmask) == g_wval; }
}  // namespace rt

// ---------------------------------------------------------------------------------------------
// compiler instrumentation entry points
#define PC ((std::uintptr_t)__builtin_return_address(0))
static inline __attribute__((always_inline)) void access(void* p, std::size_t n, bool wr, std::uintptr_t pc) {
  if (__builtin_expect(!g.active, 0)) return;
  std::uintptr_t a = (std::uintptr_t)p;
  g.steps++;
  g.countdown -= g.wplain;
  if (__builtin_expect(watched(a), 0)) g.countdown -= g.wwatch;
  if (__builtin_expect(g.countdown <= 0, 0)) slow(pc);
  if (a - ARENA_LO < ARENA_SZ) {
    unsigned char s = *shadow(a);
    if (__builtin_expect(!((s == 8 && (a & 7) + n <= 8) || (a & 7) + n <= s), 0)) access_slow(a, n, wr, pc);
  }
}
static inline __attribute__((always_inline)) void atomic_point(const volatile void* p, std::size_t n, std::uintptr_t pc) {
  if (__builtin_expect(!g.active, 0)) return;
  std::uintptr_t a = (std::uintptr_t)p;
  g.steps++;
  g.countdown -= g.watomic;
  if (__builtin_expect(watched(a), 0)) g.countdown -= g.wwatch;
  if (__builtin_expect(g.countdown <= 0, 0)) slow(pc);
  if (a - ARENA_LO < ARENA_SZ) {
    unsigned char s = *shadow(a);
    if (__builtin_expect(!((s == 8 && (a & 7) + n <= 8) || (a & 7) + n <= s), 0)) access_slow(a, n, true, pc);
  }
}
extern "C" {
// annotations of locks that are seen through their accesses (std::atomic<std::shared_ptr> has them)
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int  __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define RW_(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
static void range(void* p, std::size_t n, bool wr, std::uintptr_t pc) {
  if (!g.active || !n) return;
  access(p, 1, wr, pc);
  access_slow((std::uintptr_t)p, n, wr, pc);
}
void __tsan_read_range(void* p, long n) { range(p, n, false, PC); }
void __tsan_write_range(void* p, long n) { range(p, n, true, PC); }

extern bool sim_weak_cas_fail();
#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { atomic_point(a, sizeof(T), PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomic_point(a, sizeof(T), PC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
    atomic_point(a, sizeof(T), PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
    atomic_point(a, sizeof(T), PC); T o = *a; if (o == *c) { if (g.active && sim_weak_cas_fail()) return 0; *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { \
    atomic_point(a, sizeof(T), PC); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
ATOMICS(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { if (g.active) { int x; atomic_point(&x, 4, PC); } }
void __tsan_atomic_signal_fence(int) {}

// Legal but unusual: a weak compare-exchange may fail although the values match.
bool sim_weak_cas_fail() {
  static int pct = -1;
  Guard gd;
  if (pct < 0) pct = (int)(sim::choose(sim::S_TASK, 3) == 2 ? 10 : 0);
  if (!pct) return false;
  if (sim::choose(sim::S_TASK, 100) >= 100u - (unsigned)pct) {
    sim::fault_fired("spurious-weak-cas-failure");
    return true;
  }
  return false;
}

// container annotations of the standard vector: elements past size() are not readable
void __sanitizer_annotate_contiguous_container(const void* beg, const void* end, const void*, const void* mid) {
  std::uintptr_t b = (std::uintptr_t)beg, e = (std::uintptr_t)end, m = (std::uintptr_t)mid;
  if (b - ARENA_LO >= ARENA_SZ || (b & 7)) return;
  unsigned char* s = shadow(b);
  std::size_t total = e - b, good = m - b;
  memset(s, 8, good >> 3);
  std::size_t i = good >> 3;
  if (good & 7) s[i++] = good & 7;
  std::size_t endg = (total + 7) >> 3;
  if (i < endg) memset(s + i, 0, endg - i);
}

void* __real_memcpy(void*, const void*, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
  if (g.active && n) { range(d, n, true, PC); range((void*)s, n, false, PC); }
  return __real_memcpy(d, s, n);
}
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __wrap_memmove(void* d, const void* s, std::size_t n) {
  if (g.active && n) { range(d, n, true, PC); range((void*)s, n, false, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, std::size_t n) {
  if (g.active && n) range(d, n, true, PC);
  return __real_memset(d, c, n);
}
}
