// A simulated task scheduler behind the real oneTBB headers: implements the tbb::detail::r1 entry
// points.  Which worker runs what, when work is stolen, from whom, and how many workers ever show
// up is decided by the simulation's choice streams.
#include "rt.h"
#include <tbb/task_arena.h>
#include <tbb/task_group.h>
#include <tbb/global_control.h>
#include <tbb/cache_aligned_allocator.h>
#include <tbb/tbb_allocator.h>
#include <tbb/concurrent_queue.h>
#include <tbb/parallel_for.h>
#include <exception>
#include <stdexcept>

using namespace rt;
namespace tbb { namespace detail {
namespace r1 {
struct task_accessor {
  static d1::task_group_context*& ctx(d1::task& t) { return *(d1::task_group_context**)&t.m_reserved[0]; }
  static std::intptr_t& iso(d1::task& t) { return *(std::intptr_t*)&t.m_reserved[1]; }
  static std::uint64_t& aff(d1::task& t) { return t.m_reserved[2]; }
};
class tbb_exception_ptr {
public:
  std::exception_ptr p;
};
struct task_group_context_impl {
  using C = d1::task_group_context;
  static void init(C& c) {
    c.my_cpu_ctl_env = 0;
    c.my_cancellation_requested.store(0, std::memory_order_relaxed);
    c.my_may_have_children.store(0, std::memory_order_relaxed);
    c.my_state.store(C::state::created, std::memory_order_relaxed);
    c.my_parent = nullptr;
    c.my_context_list = nullptr;
    c.my_exception.store(nullptr, std::memory_order_relaxed);
    c.my_itt_caller = nullptr;
  }
  static void destroy(C& c) {
    if (auto* e = c.my_exception.load(std::memory_order_relaxed)) { e->~tbb_exception_ptr(); arena_free(e); }
    c.my_state.store(C::state::dead, std::memory_order_relaxed);
  }
  static void reset(C& c) {
    if (auto* e = c.my_exception.load(std::memory_order_relaxed)) { e->~tbb_exception_ptr(); arena_free(e); }
    c.my_exception.store(nullptr, std::memory_order_relaxed);
    c.my_cancellation_requested.store(0, std::memory_order_relaxed);
  }
  static void bind(C& c, C* parent) {
    if (c.my_state.load(std::memory_order_relaxed) != C::state::created) return;
    if (c.my_traits.bound && parent && parent != &c) {
      c.my_parent = parent;
      c.my_state.store(C::state::bound, std::memory_order_relaxed);
    } else
      c.my_state.store(C::state::isolated, std::memory_order_relaxed);
  }
  static bool cancelled(C& c) {
    for (C* p = &c; p; p = p->my_parent)
      if (p->my_cancellation_requested.load(std::memory_order_relaxed)) return true;
    return false;
  }
  static bool cancel(C& c) {
    if (cancelled(c)) return false;
    c.my_cancellation_requested.store(1, std::memory_order_relaxed);
    return true;
  }
  static void set_exception(C& c) {
    auto* e = new (arena_malloc(sizeof(tbb_exception_ptr), 16)) tbb_exception_ptr{std::current_exception()};
    c.my_exception.store(e, std::memory_order_relaxed);
  }
  static tbb_exception_ptr* exc(C& c) { return c.my_exception.load(std::memory_order_relaxed); }
};
class thread_data {
public:
  static bool pending(const d1::wait_context& w) { return w.m_ref_count.load(std::memory_order_relaxed) > 0; }
};
struct task_arena_impl {
  static int conc(const d1::task_arena_base& a) { return a.my_max_concurrency; }
  static void* get(d1::task_arena_base& a) { return (void*)a.my_arena.load(std::memory_order_relaxed); }
  static void set(d1::task_arena_base& a, void* p) { a.my_arena.store((arena*)p, std::memory_order_relaxed); }
};
}  // namespace r1
}}

namespace rt {
using namespace tbb::detail;
using r1::task_accessor;
using CtxI = r1::task_group_context_impl;

struct Deque {
  d1::task** v;
  int        lo, hi, cap;
};
constexpr int MAXSLOT = 64;
struct Arena {
  int   P;
  Deque dq[MAXSLOT];
  int   occ[MAXSLOT];     // fiber id + 1
  long  ntasks;
  bool  user;
  alignas(128) char ctxbuf[sizeof(d1::task_group_context)];
  d1::task_group_context* ctx;
};
static Arena* g_ar[256];
static int    g_nar;
static int    g_workers;
static std::size_t g_limit = 0;         // global_control
static int    g_ncontrol;

static void dq_push(Deque& q, d1::task* t) {
  if (q.hi == q.cap) {
    int n = q.hi - q.lo;
    int c = q.cap ? q.cap : 32;
    while (c < n + 1 || c < q.cap) c *= 2;
    if (n * 2 > c) c *= 2;
    auto** v = (d1::task**)arena_malloc(sizeof(void*) * c, 16);
    for (int i = 0; i < n; i++) v[i] = q.v[q.lo + i];
    if (q.v) arena_free(q.v);
    q.v = v; q.lo = 0; q.hi = n; q.cap = c;
  }
  q.v[q.hi++] = t;
}
static void dq_erase(Deque& q, int i) {
  if (i == q.lo) { q.lo++; }
  else { for (int k = i; k + 1 < q.hi; k++) q.v[k] = q.v[k + 1]; q.hi--; }
  if (q.lo == q.hi) q.lo = q.hi = 0;
}
static Arena* new_arena(int P) {
  auto* a = (Arena*)arena_malloc(sizeof(Arena), 128);
  memset((void*)a, 0, sizeof *a);
  a->P   = P > MAXSLOT ? MAXSLOT : P;
  a->ctx = new (a->ctxbuf) d1::task_group_context(d1::task_group_context::isolated);
  if (g_nar >= 256) engine_error("too many arenas");
  g_ar[g_nar++] = a;
  return a;
}
static int cur_limit() { return g_limit && (int)g_limit < g_P ? (int)g_limit : g_P; }
static Arena* my_arena() {
  Fiber* f = g_cur;
  if (!f->arena) {
    Arena* a  = new_arena(cur_limit());
    a->occ[0] = f->id + 1;
    f->arena  = a;
    f->slot   = 0;
    f->ed.context = a->ctx;
    f->ed.isolation = 0;
  }
  return (Arena*)f->arena;
}
static bool iso_ok(std::intptr_t want, d1::task& t) { return want == 0 || task_accessor::iso(t) == want; }
static d1::task* pop_local(Arena* a, int slot, std::intptr_t iso) {
  Deque& q = a->dq[slot];
  for (int i = q.hi - 1; i >= q.lo; i--)
    if (iso_ok(iso, *q.v[i])) {
      d1::task* t = q.v[i];
      if (i == q.hi - 1) { q.hi--; if (q.lo == q.hi) q.lo = q.hi = 0; }
      else dq_erase(q, i);
      a->ntasks--;
      return t;
    }
  return nullptr;
}
static d1::task* steal(Arena* a, int slot, std::intptr_t iso, int* from) {
  int c[MAXSLOT], n = 0;
  for (int s = 0; s < a->P; s++) {
    if (s == slot) continue;
    Deque& q = a->dq[s];
    for (int i = q.lo; i < q.hi; i++)
      if (iso_ok(iso, *q.v[i])) { c[n++] = s; break; }
  }
  if (!n) return nullptr;
  int s = c[n == 1 ? 0 : sim::choose(sim::S_TASK, n)];
  Deque& q = a->dq[s];
  for (int i = q.lo; i < q.hi; i++)
    if (iso_ok(iso, *q.v[i])) {
      d1::task* t = q.v[i];
      dq_erase(q, i);
      a->ntasks--;
      *from = s;
      sim::probe("task-stolen");
      return t;
    }
  return nullptr;
}
static void push_task(Arena* a, int slot, d1::task& t) {
  dq_push(a->dq[slot], &t);
  a->ntasks++;
  wake_all(&WORK_KEY);
}

// Runs t and everything it bypasses to; exceptions are captured in the task's context.
static void run_task(d1::task* t, unsigned short orig, unsigned short aff) {
  Fiber* f = g_cur;
  Fiber::EDX saved = f->ed;
  f->depth++;
  f->ed.original_slot = orig;
  f->ed.affinity_slot = aff;
  while (t) {
    auto* ctx = task_accessor::ctx(*t);
    f->ed.context   = ctx;
    f->ed.isolation = task_accessor::iso(*t);
    auto& ed = *(d1::execution_data*)&f->ed;
    d1::task* nx = nullptr;
    bool canc = CtxI::cancelled(*ctx);
    try {
      g.active = 1;
      nx = canc ? t->cancel(ed) : t->execute(ed);
      g.active = 0;
    } catch (...) {
      g.active = 0;
      sim::probe("task-exception");
      if (CtxI::cancel(*ctx)) CtxI::set_exception(*ctx);
      nx = t;   // the task is finalised through cancel()
      if (canc) engine_error("exception from task cancel()");
    }
    if (nx && nx != t) {
      task_accessor::ctx(*nx) = task_accessor::ctx(*nx) ? task_accessor::ctx(*nx) : ctx;
      task_accessor::iso(*nx) = f->ed.isolation;
      f->ed.affinity_slot = d1::no_slot;
    }
    t = nx;
    maybe_switch();
  }
  f->depth--;
  f->ed = saved;
}
static bool take_one(Arena* a, std::intptr_t iso) {  // run one task if there is one to take
  Fiber* f = g_cur;
  int from;
  if (d1::task* t = pop_local(a, f->slot, iso)) {
    unsigned short af = (unsigned short)task_accessor::aff(*t);
    run_task(t, (unsigned short)f->slot, af);
    return true;
  }
  if (f->depth > 24) return false;   // no stealing when the stack is deep
  if (d1::task* t = steal(a, f->slot, iso, &from)) {
    unsigned short af = (unsigned short)task_accessor::aff(*t);
    run_task(t, (unsigned short)from, af);
    return true;
  }
  return false;
}
static void wait_for(d1::wait_context& wc) {
  Arena* a = my_arena();
  Fiber* f = g_cur;
  std::intptr_t iso = f->ed.isolation;
  while (r1::thread_data::pending(wc)) {
    maybe_switch();
    if (!r1::thread_data::pending(wc)) break;
    if (take_one(a, iso)) continue;
    if (!r1::thread_data::pending(wc)) break;
    block_on(&WORK_KEY);
  }
}
static void worker_main(void*) {
  Guard gd;
  Fiber* f = g_cur;
  for (;;) {
    Arena* c[256]; int n = 0;
    for (int i = 0; i < g_nar; i++) {
      Arena* a = g_ar[i];
      if (!a->ntasks) continue;
      for (int s = 1; s < a->P; s++)
        if (!a->occ[s]) { c[n++] = a; break; }
    }
    if (!n) { block_on(&WORK_KEY); continue; }
    Arena* a = c[n == 1 ? 0 : sim::choose(sim::S_TASK, n)];
    int fr[MAXSLOT], m = 0;
    for (int s = 1; s < a->P; s++) if (!a->occ[s]) fr[m++] = s;
    int s = fr[m == 1 ? 0 : sim::choose(sim::S_TASK, m)];
    a->occ[s] = f->id + 1;
    f->arena = a;
    f->slot  = s;
    f->ed.context = a->ctx;
    f->ed.isolation = 0;
    int idle = 0;
    while (idle < 3) {
      if (take_one(a, 0)) { idle = 0; continue; }
      idle++;
      maybe_switch();
    }
    a->occ[s] = 0;
    f->arena  = nullptr;
    f->slot   = -1;
  }
}
void tasks_begin(int P) {
  g_nar = 0;
  g_limit = 0;
  g_workers = P - 1;
  // sometimes fewer workers show up than the concurrency limit promises
  if (P > 1 && sim::choose(sim::S_TASK, 6) == 5) {
    g_workers = (int)sim::choose(sim::S_TASK, P);
    if (g_workers < P - 1) sim::fault_fired("workers-missing");
  }
  for (int i = 0; i < g_workers; i++) spawn_fiber(&worker_main, nullptr, true);
}
void tasks_end() {}
}  // namespace rt

namespace tbb { namespace detail {
namespace r1 {
void __TBB_EXPORTED_FUNC initialize(d1::task_group_context& c) { Guard gd; CtxI::init(c); }
void __TBB_EXPORTED_FUNC destroy(d1::task_group_context& c) { Guard gd; CtxI::destroy(c); }
void __TBB_EXPORTED_FUNC reset(d1::task_group_context& c) { Guard gd; CtxI::reset(c); }
bool __TBB_EXPORTED_FUNC cancel_group_execution(d1::task_group_context& c) { Guard gd; maybe_switch(); return CtxI::cancel(c); }
bool __TBB_EXPORTED_FUNC is_group_execution_cancelled(d1::task_group_context& c) { Guard gd; return CtxI::cancelled(c); }
void __TBB_EXPORTED_FUNC capture_fp_settings(d1::task_group_context&) {}

void __TBB_EXPORTED_FUNC spawn(d1::task& t, d1::task_group_context& ctx) {
  Guard gd;
  Arena* a = my_arena();
  CtxI::bind(ctx, (d1::task_group_context*)g_cur->ed.context);
  task_accessor::ctx(t) = &ctx;
  task_accessor::iso(t) = g_cur->ed.isolation;
  task_accessor::aff(t) = d1::no_slot;
  push_task(a, g_cur->slot, t);
  maybe_switch();
}
void __TBB_EXPORTED_FUNC spawn(d1::task& t, d1::task_group_context& ctx, d1::slot_id id) {
  Guard gd;
  Arena* a = my_arena();
  CtxI::bind(ctx, (d1::task_group_context*)g_cur->ed.context);
  task_accessor::ctx(t) = &ctx;
  task_accessor::iso(t) = g_cur->ed.isolation;
  task_accessor::aff(t) = id;
  int s = g_cur->slot;
  if (id != d1::no_slot && id != d1::any_slot && id < a->P && sim::choose(sim::S_TASK, 2)) s = id;   // delivered through the target's mailbox
  push_task(a, s, t);
  maybe_switch();
}
void __TBB_EXPORTED_FUNC submit(d1::task& t, d1::task_group_context& ctx, arena*, std::uintptr_t) { tbb::detail::r1::spawn(t, ctx); }

static void finish_wait(d1::task_group_context& w) {
  if (auto* e = CtxI::exc(w)) {
    std::exception_ptr p = e->p;
    g.active = 1;   // leaving the runtime
    std::rethrow_exception(p);
  }
}
void __TBB_EXPORTED_FUNC execute_and_wait(d1::task& t, d1::task_group_context& tc, d1::wait_context& wc, d1::task_group_context& w) {
  Guard gd;
  my_arena();
  CtxI::bind(tc, (d1::task_group_context*)g_cur->ed.context);
  task_accessor::ctx(t) = &tc;
  task_accessor::iso(t) = g_cur->ed.isolation;
  run_task(&t, (unsigned short)g_cur->slot, d1::no_slot);
  wait_for(wc);
  finish_wait(w);
}
void __TBB_EXPORTED_FUNC wait(d1::wait_context& wc, d1::task_group_context& w) {
  Guard gd;
  wait_for(wc);
  finish_wait(w);
}
d1::slot_id __TBB_EXPORTED_FUNC execution_slot(const d1::execution_data*) {
  if (!g_cur || !g_cur->arena) return d1::slot_id(-1);
  return (d1::slot_id)g_cur->slot;
}
d1::task_group_context* __TBB_EXPORTED_FUNC current_context() {
  Guard gd;
  my_arena();
  return (d1::task_group_context*)g_cur->ed.context;
}
void __TBB_EXPORTED_FUNC notify_waiters(std::uintptr_t) {
  Guard gd;
  wake_all(&WORK_KEY);
  maybe_switch();
}
void __TBB_EXPORTED_FUNC isolate_within_arena(d1::delegate_base& d, std::intptr_t iso) {
  Guard gd;
  my_arena();
  Fiber* f = g_cur;
  std::intptr_t saved = f->ed.isolation;
  f->ed.isolation = iso ? iso : reinterpret_cast<std::intptr_t>(&d);
  try {
    g.active = 1;
    d();
    g.active = 0;
  } catch (...) {
    g.active = 0;
    g_cur->ed.isolation = saved;
    throw;
  }
  g_cur->ed.isolation = saved;
}
int __TBB_EXPORTED_FUNC max_concurrency(const d1::task_arena_base* ta) {
  Guard gd;
  if (ta) {
    int c = task_arena_impl::conc(*ta);
    return c == d1::task_arena::automatic ? cur_limit() : c;
  }
  if (g_cur && g_cur->arena) return ((Arena*)g_cur->arena)->P;
  return cur_limit();
}
void __TBB_EXPORTED_FUNC initialize(d1::task_arena_base& ta) {
  Guard gd;
  int c = task_arena_impl::conc(ta);
  task_arena_impl::set(ta, new_arena(c == d1::task_arena::automatic ? cur_limit() : c));
}
void __TBB_EXPORTED_FUNC terminate(d1::task_arena_base&) {}
bool __TBB_EXPORTED_FUNC attach(d1::task_arena_base& ta) {
  Guard gd;
  if (!g_cur->arena) return false;
  task_arena_impl::set(ta, g_cur->arena);
  return true;
}
void __TBB_EXPORTED_FUNC execute(d1::task_arena_base& ta, d1::delegate_base& d) {
  Guard gd;
  Arena* a = (Arena*)task_arena_impl::get(ta);
  Fiber* f = g_cur;
  if (f->arena == a) { g.active = 1; d(); g.active = 0; return; }
  // join a free slot (wait for one if the arena is full)
  int s = -1;
  while (s < 0) {
    for (int i = 0; i < a->P && s < 0; i++) if (!a->occ[i]) s = i;
    if (s < 0) yield_hint();
  }
  void* oa = f->arena; int os = f->slot; auto oed = f->ed;
  a->occ[s] = f->id + 1;
  f->arena = a; f->slot = s; f->ed.context = a->ctx; f->ed.isolation = 0;
  try {
    g.active = 1;
    d();
    g.active = 0;
  } catch (...) {
    g.active = 0;
    a->occ[s] = 0; f->arena = oa; f->slot = os; f->ed = oed;
    throw;
  }
  a->occ[s] = 0; f->arena = oa; f->slot = os; f->ed = oed;
}
void __TBB_EXPORTED_FUNC wait(d1::task_arena_base&) {}
void __TBB_EXPORTED_FUNC enqueue(d1::task& t, d1::task_group_context& c, d1::task_arena_base* ta) {
  Guard gd;
  Arena* a = ta ? (Arena*)task_arena_impl::get(*ta) : my_arena();
  task_accessor::ctx(t) = &c;
  task_accessor::iso(t) = 0;
  task_accessor::aff(t) = d1::no_slot;
  push_task(a, (int)sim::choose(sim::S_TASK, a->P), t);
  maybe_switch();
}
void __TBB_EXPORTED_FUNC enqueue(d1::task& t, d1::task_arena_base* ta) {
  Guard gd;
  Arena* a = ta ? (Arena*)task_arena_impl::get(*ta) : my_arena();
  enqueue(t, *a->ctx, ta);
}

// small objects, cache-aligned memory
static void* small(std::size_t n) {
  void* p = arena_malloc(n, 64);
  if (!p) engine_error("simulated heap exhausted");
  return p;
}
void* __TBB_EXPORTED_FUNC allocate(d1::small_object_pool*& pool, std::size_t n, const d1::execution_data&) { Guard gd; pool = (d1::small_object_pool*)1; return small(n); }
void* __TBB_EXPORTED_FUNC allocate(d1::small_object_pool*& pool, std::size_t n) { Guard gd; pool = (d1::small_object_pool*)1; return small(n); }
void __TBB_EXPORTED_FUNC deallocate(d1::small_object_pool&, void* p, std::size_t, const d1::execution_data&) { Guard gd; arena_free(p); }
void __TBB_EXPORTED_FUNC deallocate(d1::small_object_pool&, void* p, std::size_t) { Guard gd; arena_free(p); }
}  // namespace r1
}}
namespace rt { bool alloc_should_fail(); void mark_user_block(void*); }
namespace tbb { namespace detail { namespace r1 {
void* __TBB_EXPORTED_FUNC cache_aligned_allocate(std::size_t n) {
  // not failed by injection: oneTBB's concurrent_vector is not exception safe (a segment that fails to allocate is
  // destroyed as if it held elements), which is not this repository's code
  Guard gd;
  void* p = arena_malloc(n, 128);
  if (!p) { g.active = gd.s; throw std::bad_alloc(); }
  g.active = gd.s;
  mark_user_block(p);
  return p;
}
void __TBB_EXPORTED_FUNC cache_aligned_deallocate(void* p) { Guard gd; arena_free(p); }
std::size_t __TBB_EXPORTED_FUNC cache_line_size() { return 128; }
void* __TBB_EXPORTED_FUNC allocate_memory(std::size_t n) {
  Guard gd;
  void* p = arena_malloc(n, 16);
  if (!p) { g.active = gd.s; throw std::bad_alloc(); }
  g.active = gd.s;
  mark_user_block(p);
  return p;
}
void __TBB_EXPORTED_FUNC deallocate_memory(void* p) { Guard gd; arena_free(p); }
bool __TBB_EXPORTED_FUNC is_tbbmalloc_used() { return false; }

void __TBB_EXPORTED_FUNC throw_exception(exception_id id) {
  switch (id) {
    case exception_id::bad_alloc: throw std::bad_alloc();
    case exception_id::bad_last_alloc: throw bad_last_alloc();
    case exception_id::out_of_range: throw std::out_of_range("Index out of requested size range");
    case exception_id::reservation_length_error: throw std::length_error("Attempt to exceed implementation defined length limits");
    case exception_id::user_abort: throw user_abort();
    default: throw std::runtime_error("tbb exception");
  }
}
const char* bad_last_alloc::what() const noexcept(true) { return "bad allocation in previous or concurrent attempt"; }
const char* user_abort::what() const noexcept(true) { return "User-initiated abort has terminated this operation"; }
const char* missing_wait::what() const noexcept(true) { return "missing wait"; }
void __TBB_EXPORTED_FUNC assertion_failure(const char*, int, const char* e, const char*) { sim::failstop(e); }

// waiting on an address (tbb::mutex and friends)
void __TBB_EXPORTED_FUNC wait_on_address(void* a, d1::delegate_base& cond, std::uintptr_t) {
  Guard gd;
  for (;;) {
    g.active = 1; bool done = cond(); g.active = 0;
    if (done) return;
    block_on(a);
  }
}
void __TBB_EXPORTED_FUNC notify_by_address(void* a, std::uintptr_t) { Guard gd; wake_all(a); maybe_switch(); }
void __TBB_EXPORTED_FUNC notify_by_address_one(void* a) { Guard gd; wake_all(a); maybe_switch(); }
void __TBB_EXPORTED_FUNC notify_by_address_all(void* a) { Guard gd; wake_all(a); maybe_switch(); }

// global_control: most restrictive of the live limits
static std::size_t lim[64]; static const void* limo[64];
static void recompute() {
  g_limit = 0;
  for (int i = 0; i < 64; i++) if (limo[i] && lim[i] && (!g_limit || lim[i] < g_limit)) g_limit = lim[i];
}
void __TBB_EXPORTED_FUNC create(d1::global_control& c) {
  struct L { std::size_t v; std::intptr_t r; int p; };
  auto* l = (L*)&c;
  if (l->p != d1::global_control::max_allowed_parallelism) return;
  for (int i = 0; i < 64; i++) if (!limo[i]) { limo[i] = &c; lim[i] = l->v; break; }
  recompute();
}
void __TBB_EXPORTED_FUNC destroy(d1::global_control& c) {
  for (int i = 0; i < 64; i++) if (limo[i] == &c) limo[i] = nullptr;
  recompute();
}
std::size_t __TBB_EXPORTED_FUNC global_control_active_value(int p) {
  if (p == d1::global_control::max_allowed_parallelism) return g_limit ? g_limit : (std::size_t)cur_limit();
  return 0;
}
// bounded queues are not used by the library under test
std::uint8_t* __TBB_EXPORTED_FUNC allocate_bounded_queue_rep(std::size_t n) { return (std::uint8_t*)small(n); }
void __TBB_EXPORTED_FUNC deallocate_bounded_queue_rep(std::uint8_t* p, std::size_t) { Guard gd; arena_free(p); }
void __TBB_EXPORTED_FUNC abort_bounded_queue_monitors(concurrent_monitor*) { engine_error("bounded queue"); }
void __TBB_EXPORTED_FUNC notify_bounded_queue_monitor(concurrent_monitor*, std::size_t, std::size_t) { engine_error("bounded queue"); }
void __TBB_EXPORTED_FUNC wait_bounded_queue_monitor(concurrent_monitor*, std::size_t, std::ptrdiff_t, d1::delegate_base&) { engine_error("bounded queue"); }
}}}
