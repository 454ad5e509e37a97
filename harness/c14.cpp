// Atomic helpers: concurrent fetch_add, fetch_or, compare-and-swap and stores on plain and atomic variables of every type are indivisible.
#include "nw.h"
#include "nwgraph/util/atomic.hpp"
#include <atomic>
#include <map>
#include <optional>
using namespace h;
namespace {
enum Kind { ADD, CASADD, OR, STORE, LOAD };
static const char* kinds[] = {"fetch_add", "cas loop", "fetch_or", "store", "load"};
template <class T> struct Plain { using type = T; };
template <class T> struct Plain<std::atomic<T>> { using type = T; };
struct Op { Kind k; u64 val; u64 inv, res; u64 before; u64 after; int thread; };

// Each modifying operation adds (or sets) a bit of its own, so the value before it names exactly the set of operations before it.
template <class V>
void one(const char* name, int tier) {
  using T = typename Plain<V>::type;
  constexpr bool fp = std::is_floating_point_v<T>;
  constexpr u32 maxbits = fp ? (sizeof(T) == 4 ? 23 : 50) : sizeof(T) * 8 - 2;
  u32 nt = 2 + (u32)sim::wl(3), per = 1 + (u32)sim::wl(tier ? 7 : 5);
  int mode = (int)sim::wl(3);   // 0: modify and load; 1: stores and loads; 2: compare-and-swap as a lock-free minimum
  std::vector<std::vector<Op>> plan(nt);
  u32 bit = 0;
  for (u32 t = 0; t < nt; t++)
    for (u32 i = 0; i < per; i++) {
      Kind k = mode == 1 ? (sim::wl(2) ? STORE : LOAD) : (Kind)(sim::wl(5) == 4 ? LOAD : sim::wl(fp ? 2 : 3));
      if (mode == 0 && k != LOAD && bit >= maxbits) k = LOAD;
      u64 val = 0;
      if (mode == 0 && k != LOAD) val = 1ull << bit++;
      if (mode == 1 && k == STORE) val = 1 + t * per + i;
      if (mode == 2) { k = CASADD; val = 1 + sim::wl(1000); if (sizeof(T) == 1) val = 1 + val % 100; }
      plan[t].push_back({k, val, 0, 0, 0, 0, (int)t});
    }
  int strength = (int)sim::wl(2);
  sim::note("%s, %u threads, %s", name, nt, mode == 0 ? "read-modify-write" : mode == 1 ? "stores and loads" : "minimum by compare-and-swap");
  sim::probe(name);
  V x;
  T start = mode == 2 ? T(sizeof(T) == 1 ? 120 : 2000) : T(0);
  u64 tries = 0;
  sim::run([&] {
    nw::graph::relaxed(x, start);
    auto work = [&](std::vector<Op>& ops) {
      for (auto& o : ops) {
        o.inv = sim::now_steps();
        switch (o.k) {
          case ADD: o.before = (u64)nw::graph::fetch_add(x, T(o.val)); break;
          case OR: if constexpr (!fp) o.before = (u64)nw::graph::fetch_or(x, T(o.val)); break;
          case CASADD: {
            T e = strength ? nw::graph::acquire(x) : nw::graph::relaxed(x);
            for (;;) {
              T want = mode == 2 ? T(o.val) : T(e + T(o.val));
              if (mode == 2 && !(want < e)) { o.after = 0; break; }
              T old = e;
              bool ok = nw::graph::cas(x, e, want);
              tries++;
              if (ok) { o.after = 1; if (e != old) sim::violation("atomic", "%s: a successful compare-and-swap changed the expected value", name); break; }
              if (e == old) sim::violation("atomic", "%s: compare-and-swap failed although the value was as expected", name);
            }
            o.before = (u64)e;
          } break;
          case STORE: if (strength) nw::graph::release(x, T(o.val)); else nw::graph::relaxed(x, T(o.val)); break;
          case LOAD: o.before = (u64)(strength ? nw::graph::acquire(x) : nw::graph::relaxed(x)); break;
        }
        o.res = sim::now_steps();
      }
    };
    std::vector<int> ids;
    for (u32 t = 1; t < nt; t++) ids.push_back(sim::client([&, t] { work(plan[t]); }));
    work(plan[0]);
    for (int id : ids) sim::join_client(id);
  });
  sim::Quiet q;
  T fin = nw::graph::relaxed(x);
  std::vector<Op> all;
  for (auto& p : plan) for (auto& o : p) all.push_back(o);
  if (mode == 0) {
    // order by the number of operations before; the values must form one chain consistent with real time
    std::vector<Op> mods, loads;
    for (auto& o : all) (o.k == LOAD ? loads : mods).push_back(o);
    std::sort(mods.begin(), mods.end(), [](auto& a, auto& b) { return std::make_pair(__builtin_popcountll(a.before), a.before) < std::make_pair(__builtin_popcountll(b.before), b.before); });
    u64 v = 0;
    std::map<u64, std::size_t> at;
    at[0] = 0;
    for (std::size_t i = 0; i < mods.size(); i++) {
      if (mods[i].before != v) sim::violation("atomic", "%s: %s by thread %d saw %llx, the operations before it leave %llx", name, kinds[mods[i].k], mods[i].thread, (unsigned long long)mods[i].before, (unsigned long long)v);
      v += mods[i].val;
      at[v] = i + 1;
      for (std::size_t j = 0; j < i; j++) if (mods[i].res < mods[j].inv) sim::violation("atomic", "%s: an operation took effect after one that began when it had ended", name);
    }
    if ((u64)fin != v) sim::violation("atomic", "%s: final value %llx, all operations together give %llx", name, (unsigned long long)fin, (unsigned long long)v);
    for (auto& l : loads) {
      auto it = at.find(l.before);
      if (it == at.end()) sim::violation("atomic", "%s: a load saw %llx, a value the variable never had", name, (unsigned long long)l.before);
      std::size_t k = it->second;
      for (std::size_t j = k; j < mods.size(); j++) if (mods[j].res < l.inv) sim::violation("atomic", "%s: a load missed an operation that had ended before it began", name);
      for (std::size_t j = 0; j < k; j++) if (mods[j].inv > l.res) sim::violation("atomic", "%s: a load saw an operation that had not begun", name);
    }
  } else if (mode == 1) {
    for (auto& l : all) {
      if (l.k != LOAD) continue;
      if (l.before == 0) { for (auto& s : all) if (s.k == STORE && s.res < l.inv) sim::violation("atomic", "%s: a load saw the first value after a store had ended", name); continue; }
      const Op* src = nullptr;
      for (auto& s : all) if (s.k == STORE && s.val == l.before) src = &s;
      if (!src) sim::violation("atomic", "%s: a load saw %llu, which nobody stored", name, (unsigned long long)l.before);
      if (src->inv > l.res) sim::violation("atomic", "%s: a load saw a store that had not begun", name);
      for (auto& s : all) if (s.k == STORE && &s != src && s.inv > src->res && s.res < l.inv) sim::violation("atomic", "%s: a load saw a value that had been overwritten", name);
    }
  } else {
    u64 mn = (u64)start;
    for (auto& o : all) mn = std::min(mn, o.val);
    if ((u64)fin != mn) sim::violation("atomic", "%s: the minimum of the values is %llu, the variable ended as %llu", name, (unsigned long long)mn, (unsigned long long)fin);
  }
  if (sim::preemptions() >= 2) sim::mark_nontrivial();
}
void scenario(int tier) {
  switch (sim::wl(12)) {
    case 0: one<int>("int", tier); break;
    case 1: one<u32>("uint32", tier); break;
    case 2: one<u64>("uint64", tier); break;
    case 3: one<float>("float", tier); break;
    case 4: one<double>("double", tier); break;
    case 5: one<std::atomic<int>>("atomic int", tier); break;
    case 6: one<std::atomic<u32>>("atomic uint32", tier); break;
    case 7: one<std::atomic<u64>>("atomic uint64", tier); break;
    case 8: one<std::atomic<float>>("atomic float", tier); break;
    case 9: one<std::atomic<double>>("atomic double", tier); break;
    case 10: one<std::uint16_t>("uint16", tier); break;
    default: one<std::uint8_t>("uint8", tier); break;
  }
}
}
const PropertyDef g_properties[] = {{"C14", scenario, "a run counts when at least 2 preemptions happened while 2 to 4 caller threads used one variable; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
