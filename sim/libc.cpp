// The operating-system seam: threads, mutexes, condition variables, futexes, clocks, sleeping,
// processor count, random device, heap, and files.  Interposed by defining the libc / libstdc++
// symbols in the executable, so the code under test and libstdc++.so itself reach these.
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <chrono>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>
#include <bits/atomic_futex.h>
#include <mutex>
#include <thread>

using namespace rt;
namespace rt {
bool alloc_should_fail();
void mark_user_block(void*);
static std::uint64_t g_thr_n, g_thr_fail_at;
static bool g_thr_fired;
void once_save(void** p) {
  p[0] = (void*)std::__once_callable;
  p[1] = (void*)std::__once_call;
}
void once_load(void** p) {
  std::__once_callable = p[0];
  std::__once_call     = (void (*)())p[1];
}
}  // namespace rt

// ---------------------------------------------------------------------------------------------
// heap
extern "C" {
void* malloc(std::size_t n) { return arena_malloc(n, 16); }
void  free(void* p) { arena_free(p); }
void* calloc(std::size_t a, std::size_t b) {
  std::size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = arena_malloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, std::size_t n) {
  if (!p) return malloc(n);
  void* q = arena_malloc(n, 16);
  if (!q) return nullptr;
  std::size_t o = arena_size_of(p);
  memcpy(q, p, o < n ? o : n);
  arena_free(p);
  return q;
}
void* memalign(std::size_t a, std::size_t n) { return arena_malloc(n, a); }
void* aligned_alloc(std::size_t a, std::size_t n) { return arena_malloc(n, a); }
int   posix_memalign(void** r, std::size_t a, std::size_t n) {
  *r = arena_malloc(n, a);
  return *r ? 0 : ENOMEM;
}
void*       valloc(std::size_t n) { return arena_malloc(n, 4096); }
std::size_t malloc_usable_size(void* p) { return p ? arena_size_of(p) : 0; }
}
static void* op_new(std::size_t n, std::size_t al) {
  if (alloc_should_fail()) throw std::bad_alloc();
  void* p = arena_malloc(n ? n : 1, al);
  if (!p) {
    if (n > (64ull << 20)) throw std::bad_alloc();
    engine_error("simulated heap exhausted");
  }
  mark_user_block(p);
  return p;
}
static void* op_new_nt(std::size_t n, std::size_t al) noexcept {
  if (alloc_should_fail()) return nullptr;
  void* p = arena_malloc(n ? n : 1, al);
  mark_user_block(p);
  return p;
}
void* operator new(std::size_t n) { return op_new(n, 16); }
void* operator new[](std::size_t n) { return op_new(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return op_new(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return op_new(n, (std::size_t)a); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new_nt(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new_nt(n, (std::size_t)a); }
void  operator delete(void* p) noexcept { arena_free(p); }
void  operator delete[](void* p) noexcept { arena_free(p); }
void  operator delete(void* p, std::size_t) noexcept { arena_free(p); }
void  operator delete[](void* p, std::size_t) noexcept { arena_free(p); }
void  operator delete(void* p, std::align_val_t) noexcept { arena_free(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { arena_free(p); }
void  operator delete(void* p, std::size_t, std::align_val_t) noexcept { arena_free(p); }
void  operator delete[](void* p, std::size_t, std::align_val_t) noexcept { arena_free(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p); }

// ---------------------------------------------------------------------------------------------
// loud ends of the code under test
extern "C" void __assert_fail(const char* e, const char* f, unsigned line, const char* fn) noexcept {
  g.active = 0;
  (void)fn;
  char b[600];
  const char* base = strrchr(f, '/');
  snprintf(b, sizeof b, "assertion failed: %s (%s)", e, base ? base + 1 : f);
  (void)line;
  if (g_sh) sim::failstop(b);
  raw_write(2, b, strlen(b));
  _exit(3);
}
extern "C" void abort() noexcept {
  g.active = 0;
  if (g_sh && g_sh->status == ST_RUNNING) sim::failstop("abort");
  _exit(3);
}
static void on_terminate() {
  g.active = 0;
  const char* t = "terminate";
  char b[300];
  if (auto* ti = abi::__cxa_current_exception_type()) {
    int st;
    char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
    snprintf(b, sizeof b, "terminated with an uncaught exception of type %s", d ? d : ti->name());
    t = b;
  }
  if (g_sh && g_sh->status == ST_RUNNING) sim::failstop(t);
  _exit(3);
}
extern "C" void exit(int c) noexcept {
  if (g_sh && g_sh->status == ST_RUNNING) {
    g.active = 0;
    char b[60];
    snprintf(b, sizeof b, "exit(%d)", c);
    sim::failstop(b);
  }
  fflush(nullptr);
  _exit(c);
}
namespace sim {
void arm_thread_failure(std::uint64_t k) { g_thr_n = 0; g_thr_fail_at = k; g_thr_fired = false; }
void disarm_thread_failure() { g_thr_fail_at = 0; }
bool thread_failure_fired() { return g_thr_fired; }
}
namespace rt {
void install_terminate() { std::set_terminate(on_terminate); }
}

// ---------------------------------------------------------------------------------------------
// threads
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept {
  if (!g_cur) engine_error("thread created outside the simulation");
  Guard gd;
  if (gd.s && ++g_thr_n == g_thr_fail_at) { g_thr_fired = true; sim::fault_fired("thread-creation-failure"); return EAGAIN; }
  struct A { void* (*fn)(void*); void* arg; };
  auto* a = (A*)arena_malloc(sizeof(A), 16);
  *a = {fn, arg};
  int id = spawn_fiber([](void* p) { A x = *(A*)p; g_cur->ret = x.fn(x.arg); }, a, false);
  *t = (pthread_t)(0x10000 + id);
  maybe_switch();
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  Guard gd;
  int id = (int)(t - 0x10000);
  if (id < 0 || id >= g_nf) return ESRCH;
  while (g_f[id].st != F_DONE) block_on(&g_f[id]);
  if (r) *r = g_f[id].ret;
  g_f[id].detached = true;
  return 0;
}
int pthread_detach(pthread_t t) noexcept {
  int id = (int)(t - 0x10000);
  if (id >= 0 && id < g_nf) g_f[id].detached = true;
  return 0;
}
pthread_t pthread_self() noexcept { return g_cur ? (pthread_t)(0x10000 + g_cur->id) : (pthread_t)0x10000; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }

// Mutex: __lock is the owner id + 1.
static int mutex_lock_(pthread_mutex_t* m, bool tr, std::uint64_t until) {
  if (!g_cur) return 0;
  Guard gd;
  maybe_switch();
  int me = g_cur->id + 1;
  for (;;) {
    if (m->__data.__lock == 0) { m->__data.__lock = me; m->__data.__count = 1; return 0; }
    if (m->__data.__lock == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; }
    if (tr) return EBUSY;
    block_on(m, until);
    if (until && g_cur->timed_out) return ETIMEDOUT;
  }
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
  memset(m, 0, sizeof *m);
  if (a) m->__data.__kind = *(const int*)a & 3;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return mutex_lock_(m, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return mutex_lock_(m, true, 0); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!g_cur) return 0;
  Guard gd;
  if (m->__data.__count > 1) { m->__data.__count--; return 0; }
  m->__data.__lock = 0;
  m->__data.__count = 0;
  wake_all(m);
  maybe_switch();
  return 0;
}
static std::uint64_t mono_deadline(const struct timespec* ts, bool real) {
  std::int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (real) t -= sim::wall_ns() - (std::int64_t)sim::mono_ns();
  return t <= 0 ? 1 : (std::uint64_t)t;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, std::uint64_t until) {
  Guard gd;
  m->__data.__lock = 0;
  m->__data.__count = 0;
  wake_all(m);
  if (sim::choose(sim::S_TASK, 20) == 19) sim::fault_fired("spurious-wakeup"), reschedule(false);
  else block_on(c, until);
  bool to = g_cur->timed_out && until;
  mutex_lock_(m, false, 0);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cwait(c, m, mono_deadline(t, true)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  return cwait(c, m, mono_deadline(t, k == CLOCK_REALTIME));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { Guard gd; wake_one(c); if (g_cur) maybe_switch(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { Guard gd; wake_all(c); if (g_cur) maybe_switch(); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (*o == 2) return 0;
  if (!g_cur) { *o = 1; fn(); *o = 2; return 0; }
  {
    Guard gd;
    while (*o == 1) block_on(o);
    if (*o == 2) return 0;
    *o = 1;
  }
  try {
    fn();
  } catch (...) {
    *o = 0;
    Guard gd;
    wake_all(o);
    throw;
  }
  Guard gd;
  *o = 2;
  wake_all(o);
  return 0;
}
// Reader-writer locks: __data.__readers counts readers, __cur_writer holds owner+1.
static int rwl(pthread_rwlock_t* l, bool w, bool tr) {
  if (!g_cur) return 0;
  Guard gd;
  maybe_switch();
  for (;;) {
    if (l->__data.__cur_writer == 0 && (!w || l->__data.__readers == 0)) {
      if (w) l->__data.__cur_writer = g_cur->id + 1; else l->__data.__readers++;
      return 0;
    }
    if (tr) return EBUSY;
    block_on(l);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return rwl(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return rwl(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return rwl(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return rwl(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  if (!g_cur) return 0;
  Guard gd;
  if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else l->__data.__readers--;
  wake_all(l);
  maybe_switch();
  return 0;
}
int sched_yield() noexcept { if (g_cur) yield_hint(); return 0; }
int get_nprocs() noexcept { return g_cur ? g_P : 4; }
int get_nprocs_conf() noexcept { return g_cur ? g_P : 4; }

// ---------------------------------------------------------------------------------------------
// time
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  std::int64_t t;
  if (!g_sh) return (int)syscall(SYS_clock_gettime, c, ts);
  if (g.active || g_cur) g.steps++, g.countdown--;
  t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim::wall_ns() : (std::int64_t)sim::mono_ns();
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  std::int64_t t = sim::wall_ns();
  tv->tv_sec = t / 1000000000ll;
  tv->tv_usec = t % 1000000000ll / 1000;
  return 0;
}
time_t time(time_t* p) noexcept {
  time_t t = sim::wall_ns() / 1000000000ll;
  if (p) *p = t;
  return t;
}
static int do_sleep(std::uint64_t ns) {
  if (!g_cur) { sim::clock_advance(ns); return 0; }
  Guard gd;
  static const char K = 0;
  block_on(&K, sim::mono_ns() + ns + 1);
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem) { if (rem) *rem = {0, 0}; return do_sleep(t->tv_sec * 1000000000ull + t->tv_nsec); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec*) {
  std::uint64_t ns = t->tv_sec * 1000000000ull + t->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    std::int64_t now = c == CLOCK_REALTIME ? sim::wall_ns() : (std::int64_t)sim::mono_ns();
    ns = (std::int64_t)ns > now ? ns - now : 0;
  }
  return do_sleep(ns);
}
int usleep(useconds_t u) { return do_sleep(u * 1000ull); }

// random device
std::uint32_t arc4random() noexcept { return (std::uint32_t)sim::choose(sim::S_WORK, 0xffffffffull); }
// the rest of the machine: no shell, a fixed host name, /sim is the only directory
int system(const char*) { if (!g_cur) return -1; sim::fault_fired("shell-command-refused"); return 256; }
int gethostname(char* p, std::size_t n) noexcept { snprintf(p, n, "simhost"); return 0; }
int mkdir(const char* n, mode_t m) noexcept {
  if (g_cur) { errno = strncmp(n, "/sim", 4) == 0 ? EEXIST : EACCES; return -1; }
  return (int)syscall(SYS_mkdir, n, m);
}
ssize_t getrandom(void* p, std::size_t n, unsigned) {
  for (std::size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)sim::choose(sim::S_WORK, 256);
  return (ssize_t)n;
}
}  // extern "C"
void __attribute__((noinline)) futex_wait_key(const void* a, std::uint64_t until) { block_on(a, until); }

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds ns) {
  rt::Guard gd;
  rt::maybe_switch();
  if (*(volatile unsigned*)a != v) return true;
  struct timespec ts{(time_t)s.count(), (long)ns.count()};
  futex_wait_key(a, to ? mono_deadline(&ts, true) : 0);
  return !(to && rt::g_cur->timed_out);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds ns) {
  rt::Guard gd;
  rt::maybe_switch();
  if (*(volatile unsigned*)a != v) return true;
  struct timespec ts{(time_t)s.count(), (long)ns.count()};
  futex_wait_key(a, to ? mono_deadline(&ts, false) : 0);
  return !(to && rt::g_cur->timed_out);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  rt::Guard gd;
  rt::wake_all(a);
  if (rt::g_cur) rt::maybe_switch();
}
unsigned thread::hardware_concurrency() noexcept { return rt::g_cur ? (unsigned)rt::g_P : 4u; }
}  // namespace std

// ---------------------------------------------------------------------------------------------
// files: an in-memory disk
namespace {
constexpr int MAXF = 16, MAXH = 32, FD0 = 0x2000;
struct SFile { char name[64]; unsigned char* data; std::size_t n, cap; bool used; };
struct SHandle { bool used; int file; std::size_t pos; bool rd, wr, app; FILE* fp; bool dirty; };
SFile   g_files[MAXF];
SHandle g_h[MAXH];
bool    g_disk_on;
sim::DiskFaults g_df;
bool          g_df_fired, g_crashed;
std::uint64_t g_nreads, g_nwrites;

int find_file(const char* n) {
  for (int i = 0; i < MAXF; i++) if (g_files[i].used && !strcmp(g_files[i].name, n)) return i;
  return -1;
}
int make_file(const char* n) {
  for (int i = 0; i < MAXF; i++)
    if (!g_files[i].used) {
      g_files[i] = {};
      snprintf(g_files[i].name, sizeof g_files[i].name, "%s", n);
      g_files[i].used = true;
      return i;
    }
  engine_error("simulated disk: too many files");
}
void ensure(SFile& f, std::size_t n) {
  if (n <= f.cap) return;
  std::size_t c = f.cap ? f.cap : 1024;
  while (c < n) c *= 2;
  auto* p = (unsigned char*)arena_malloc(c, 16);
  memset(p, 0, c);
  if (f.n) memcpy(p, f.data, f.n);
  f.data = p;
  f.cap = c;
}
std::size_t total() {
  std::size_t t = 0;
  for (auto& f : g_files) if (f.used) t += f.n;
  return t;
}
SHandle* H(int fd) {
  int i = fd - FD0;
  return i >= 0 && i < MAXH && g_h[i].used ? &g_h[i] : nullptr;
}
int sopen(const char* name, bool rd, bool wr, bool creat, bool trunc, bool app) {
  if (g_df.open_fails) { g_df_fired = true; sim::fault_fired("open-error"); errno = EMFILE; return -1; }
  int f = find_file(name);
  if (f < 0) {
    if (!creat) { errno = ENOENT; return -1; }
    if (g_crashed) { errno = EIO; return -1; }
    f = make_file(name);
  }
  if (trunc && !g_crashed) g_files[f].n = 0;
  for (int i = 0; i < MAXH; i++)
    if (!g_h[i].used) { g_h[i] = {true, f, app ? g_files[f].n : 0, rd, wr, app, nullptr, false}; return FD0 + i; }
  errno = EMFILE;
  return -1;
}
ssize_t sread(SHandle* h, void* p, std::size_t n) {
  Guard gd;
  if (g_cur) maybe_switch();
  std::uint64_t k = g_nreads++;
  if (!h->rd) { errno = EBADF; return -1; }
  if (g_df.eio_read_at >= 0 && k >= (std::uint64_t)g_df.eio_read_at) {
    g_df_fired = true; sim::fault_fired("read-EIO"); errno = EIO; return -1;
  }
  if (g_df.eintr_pct && sim::flt(100) >= 100 - g_df.eintr_pct) { sim::fault_fired("read-EINTR"); errno = EINTR; return -1; }
  SFile& f = g_files[h->file];
  std::size_t left = h->pos < f.n ? f.n - h->pos : 0;
  if (n > left) n = left;
  if (n > 1 && g_df.short_read_pct && sim::flt(100) >= 100 - g_df.short_read_pct) {
    std::size_t m = 1 + sim::flt(n > 64 ? 64 : n);
    if (m < n) { n = m; sim::fault_fired("short-read"); }
  }
  memcpy(p, f.data + h->pos, n);
  h->pos += n;
  return (ssize_t)n;
}
ssize_t swrite(SHandle* h, const void* p, std::size_t n) {
  Guard gd;
  if (g_cur) maybe_switch();
  std::uint64_t k = g_nwrites++;
  if (!h->wr) { errno = EBADF; return -1; }
  if (g_crashed) { errno = EIO; return -1; }
  SFile& f = g_files[h->file];
  if (h->app) h->pos = f.n;
  if (g_df.crash_write_at >= 0 && k >= (std::uint64_t)g_df.crash_write_at) {
    std::size_t m = sim::flt(n + 1);   // torn: only a prefix of this write reaches the disk
    ensure(f, h->pos + m);
    memcpy(f.data + h->pos, p, m);
    if (h->pos + m > f.n) f.n = h->pos + m;
    g_crashed = true; g_df_fired = true;
    sim::fault_fired("crash-in-write");
    errno = EIO;
    return -1;
  }
  if (g_df.eio_write_at >= 0 && k >= (std::uint64_t)g_df.eio_write_at) {
    g_df_fired = true; sim::fault_fired("write-EIO"); errno = EIO; return -1;
  }
  if (g_df.eintr_pct && sim::flt(100) >= 100 - g_df.eintr_pct) { sim::fault_fired("write-EINTR"); errno = EINTR; return -1; }
  if (g_df.capacity >= 0) {
    std::size_t t = total();
    std::size_t room = (std::size_t)g_df.capacity > t ? (std::size_t)g_df.capacity - t : 0;
    if (h->pos < f.n) room += f.n - h->pos;
    if (n > room) {
      g_df_fired = true; sim::fault_fired("disk-full");
      if (!room) { errno = ENOSPC; return -1; }
      n = room;
    }
  }
  if (n > 1 && g_df.short_write_pct && sim::flt(100) >= 100 - g_df.short_write_pct) {
    std::size_t m = 1 + sim::flt(n > 64 ? 64 : n);
    if (m < n) { n = m; sim::fault_fired("short-write"); }
  }
  ensure(f, h->pos + n);
  memcpy(f.data + h->pos, p, n);
  h->pos += n;
  h->dirty = true;
  if (h->pos > f.n) f.n = h->pos;
  return (ssize_t)n;
}
off_t sseek(SHandle* h, off_t o, int wh) {
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)h->pos : (off_t)g_files[h->file].n;
  if (b + o < 0) { errno = EINVAL; return -1; }
  h->pos = b + o;
  return b + o;
}
int sclose(int fd) {
  SHandle* h = H(fd);
  if (!h) { errno = EBADF; return -1; }
  h->used = false;
  if (g_df.close_fails && h->dirty && !g_crashed) {
    SFile& f = g_files[h->file];
    f.n -= sim::flt(f.n + 1);
    g_df_fired = true; sim::fault_fired("close-EIO"); errno = EIO;
    return -1;
  }
  return 0;
}
constexpr int MAXM = 32;
struct SMap { char* p; std::size_t n; };
SMap  g_maps[MAXM];
char* const MAP_LO = (char*)0x6f0000000000ull;
char* g_map_next = MAP_LO;
bool inside_mapping(void* a) { return (char*)a >= MAP_LO && (char*)a < MAP_LO + (1ull << 36); }
bool simulated(const char* name) { return g_disk_on && name && strncmp(name, "/sim/", 5) == 0; }

ssize_t ck_read(void* c, char* b, std::size_t n) { SHandle* h = H((int)(intptr_t)c); return h ? sread(h, b, n) : -1; }
ssize_t ck_write(void* c, const char* b, std::size_t n) { SHandle* h = H((int)(intptr_t)c); ssize_t k = h ? swrite(h, b, n) : -1; return k < 0 ? 0 : k; }
int ck_seek(void* c, off64_t* o, int wh) { SHandle* h = H((int)(intptr_t)c); if (!h) return -1; off_t r = sseek(h, *o, wh); if (r < 0) return -1; *o = r; return 0; }
int g_streams;   // stdio streams not closed yet
int ck_close(void* c) { g_streams--; return sclose((int)(intptr_t)c); }
FILE* make_fp(int fd, const char* mode) {
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*)(intptr_t)fd, mode, io);
  if (fp) { g_h[fd - FD0].fp = fp; g_streams++; }
  return fp;
}
FILE* do_fopen(const char* name, const char* mode) {
  bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
  int fd = sopen(name, r || plus, w || a || plus, w || a, w, a);
  if (fd < 0) return nullptr;
  return make_fp(fd, mode);
}
template <class F>
F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}  // namespace

namespace sim {
void disk_reset() {
  g_disk_on = true;
  for (auto& f : g_files) f = {};
  for (auto& h : g_h) h = {};
  for (auto& m : g_maps) { if (m.n) syscall(SYS_munmap, m.p, m.n); m = {}; }
  g_map_next = MAP_LO;
  g_streams = 0;
  g_df = {};
  g_df_fired = g_crashed = false;
  g_nreads = g_nwrites = 0;
}
void disk_faults(const DiskFaults& d) { g_df = d; g_df_fired = g_crashed = false; g_nreads = g_nwrites = 0; }
bool disk_fault_fired() { return g_df_fired; }
void disk_put(const char* n, const void* d, std::size_t k) {
  int f = find_file(n);
  if (f < 0) f = make_file(n);
  ensure(g_files[f], k);
  if (k) memcpy(g_files[f].data, d, k);
  g_files[f].n = k;
}
std::size_t disk_size(const char* n) { int f = find_file(n); return f < 0 ? (std::size_t)-1 : g_files[f].n; }
const unsigned char* disk_data(const char* n) { int f = find_file(n); return f < 0 ? nullptr : g_files[f].data; }
void disk_truncate(const char* n, std::size_t k) { int f = find_file(n); if (f >= 0 && k <= g_files[f].n) g_files[f].n = k; }
std::uint64_t disk_reads() { return g_nreads; }
std::uint64_t disk_writes() { return g_nwrites; }
int disk_mappings() { int n = 0; for (auto& m : g_maps) n += m.n != 0; return n; }
int disk_open_handles() { int n = 0; for (auto& h : g_h) n += h.used; return n > g_streams ? n : g_streams; }
}  // namespace sim

extern "C" {
FILE* fopen(const char* n, const char* m) { Guard gd; return simulated(n) ? do_fopen(n, m) : real<FILE* (*)(const char*, const char*)>("fopen")(n, m); }
FILE* fopen64(const char* n, const char* m) { Guard gd; return simulated(n) ? do_fopen(n, m) : real<FILE* (*)(const char*, const char*)>("fopen")(n, m); }
FILE* fdopen(int fd, const char* m) noexcept { Guard gd; return H(fd) ? make_fp(fd, m) : real<FILE* (*)(int, const char*)>("fdopen")(fd, m); }
int fileno(FILE* f) noexcept {
  for (int i = 0; i < MAXH; i++) if (g_h[i].used && g_h[i].fp == f) return FD0 + i;
  return real<int (*)(FILE*)>("fileno")(f);
}
ssize_t read(int fd, void* p, std::size_t n) { SHandle* h = H(fd); return h ? sread(h, p, n) : syscall(SYS_read, fd, p, n); }
ssize_t write(int fd, const void* p, std::size_t n) {
  SHandle* h = H(fd);
  if (h) return swrite(h, p, n);
  if (g_sh && g_sh->status == ST_RUNNING && (fd == 1 || fd == 2)) return (ssize_t)n;   // program output is not part of the model
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  SHandle* h = H(fd);
  if (!h) {
    if (g_sh && g_sh->status == ST_RUNNING && (fd == 1 || fd == 2)) { ssize_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; return t; }
    return syscall(SYS_writev, fd, v, c);
  }
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t k = swrite(h, v[i].iov_base, v[i].iov_len);
    if (k < 0) return t ? t : -1;
    t += k;
    if ((std::size_t)k < v[i].iov_len) break;
  }
  return t;
}
off_t lseek(int fd, off_t o, int w) noexcept { SHandle* h = H(fd); return h ? sseek(h, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { return H(fd) ? sclose(fd) : (int)syscall(SYS_close, fd); }
int open(const char* n, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (simulated(n)) { Guard gd; int a = fl & O_ACCMODE; return sopen(n, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND); }
  return (int)syscall(SYS_openat, AT_FDCWD, n, fl, mode);
}
int open64(const char* n, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  return open(n, fl, mode);
}
int fstat(int fd, struct stat* st) noexcept {
  SHandle* h = H(fd);
  if (!h) return (int)syscall(SYS_fstat, fd, st);
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t)g_files[h->file].n;
  st->st_blksize = 4096;
  return 0;
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
int stat(const char* n, struct stat* st) noexcept {
  if (g_cur && (!strcmp(n, "/sim") || !strcmp(n, "/sim/"))) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
  if (!simulated(n)) return (int)syscall(SYS_newfstatat, AT_FDCWD, n, st, 0);
  int f = find_file(n);
  if (f < 0) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t)g_files[f].n;
  return 0;
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  SHandle* h = H(fd);
  if (!h) return (int)syscall(SYS_ioctl, fd, req, a);
  errno = ENOTTY;
  return -1;
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && H(p->fd)) { p->revents = p->events; return 1; }
  return (int)syscall(SYS_poll, p, n, t);
}
// Mappings made by simulated code get fixed addresses, with nothing mapped after them.
// A file mapping is zero past the end of the file up to its last page, and not accessible beyond that.
void* mmap(void* a, std::size_t n, int pr, int fl, int fd, off_t o) noexcept {
  SHandle* h = fd >= 0 && !(fl & MAP_ANONYMOUS) ? H(fd) : nullptr;
  bool in = inside_mapping(a);
  if (!h && !(g_cur && g_disk_on && (fl & MAP_ANONYMOUS) && (in || !(fl & MAP_FIXED)))) return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
  Guard gd;
  if (!n) { errno = EINVAL; return MAP_FAILED; }
  if (h && g_df.eio_read_at >= 0 && g_nreads++ >= (std::uint64_t)g_df.eio_read_at) { g_df_fired = true; sim::fault_fired("mmap-error"); errno = ENOMEM; return MAP_FAILED; }
  std::size_t pg = (n + 4095) & ~4095ull, valid = pg;
  if (h) {
    std::size_t left = (std::size_t)o < g_files[h->file].n ? g_files[h->file].n - o : 0;
    if (left < n) valid = (left + 4095) & ~4095ull;
  }
  char* p = (char*)a;
  if (!(fl & MAP_FIXED)) {
    int i = 0;
    while (i < MAXM && g_maps[i].n) i++;
    if (i == MAXM) engine_error("simulated memory mappings: too many");
    p = g_map_next;
    g_map_next += pg + 16 * 4096;
    g_maps[i] = {p, pg};
  }
  if ((void*)syscall(SYS_mmap, p, pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != p) engine_error("simulated memory mapping failed");
  if (valid) {
    syscall(SYS_mprotect, p, valid, PROT_READ | PROT_WRITE);
    if (h) {
      SFile& f = g_files[h->file];
      std::size_t k = (std::size_t)o < f.n ? f.n - o : 0;
      memcpy(p, f.data + o, k < valid ? k : valid);
    }
    syscall(SYS_mprotect, p, valid, pr);
  }
  return p;
}
void* mmap64(void* a, std::size_t n, int pr, int fl, int fd, off_t o) noexcept { return mmap(a, n, pr, fl, fd, o); }
int munmap(void* a, std::size_t n) noexcept {
  std::size_t pg = (n + 4095) & ~4095ull;
  for (auto& m : g_maps)
    if (m.n && m.p == a) {
      if (pg < m.n) { m.p += pg; m.n -= pg; } else m = {};   // the rest stays mapped
      break;
    }
  return (int)syscall(SYS_munmap, a, n);
}
int fsync(int fd) { return H(fd) ? 0 : (int)syscall(SYS_fsync, fd); }

// std::atomic::wait and friends
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && g_cur) {
    Guard gd;
    int op = (int)a[1] & 127;
    int* addr = (int*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      maybe_switch();
      if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
      std::uint64_t until = 0;
      if (a[3]) {
        auto* ts = (const struct timespec*)a[3];
        until = op == FUTEX_WAIT ? sim::mono_ns() + ts->tv_sec * 1000000000ull + ts->tv_nsec + 1 : mono_deadline(ts, (a[1] & FUTEX_CLOCK_REALTIME) != 0);
      }
      block_on(addr, until);
      if (until && g_cur->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      if (a[2] == 1) wake_one(addr); else wake_all(addr);
      maybe_switch();
      return 1;
    }
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8")   = a[4];
  register long r9 asm("r9")   = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
}
