// The concurrent bitmap: histories of concurrent get/set are linearizable, iteration afterwards gives exactly the set bits.
#include "nw.h"
#include "nwgraph/util/AtomicBitVector.hpp"
#include <map>
#include <optional>
using namespace h;
namespace {
struct Op { u32 bit; bool set; u64 inv, res; bool one; int thread; };
template <class W>
void one(int tier) {
  constexpr u32 BITS = sizeof(W) * 8;
  static const u32 sizes[] = {1, 3, BITS - 1, BITS, BITS + 1, 3 * BITS, 5 * BITS + 7, 700};
  u32 n = sizes[sim::wl(8)];
  if (sim::wl(60) == 59) n = sim::wl(2) ? 66000 + (u32)sim::wl(6000) : 2000 + (u32)sim::wl(20000);
  u32 nt = 2 + (u32)sim::wl(3), per = 1 + (u32)sim::wl(tier ? 12 : 8);
  bool fresh = sim::wl(4) != 0, moved = sim::wl(4) == 0;
  // few bits are contended
  std::vector<u32> hot;
  u32 nh = 1 + (u32)sim::wl(4), base = (u32)sim::wl(n);
  for (u32 i = 0; i < nh; i++) hot.push_back(sim::wl(2) ? (base + i) % n : (u32)sim::wl(n));
  std::vector<std::vector<Op>> plan(nt);
  for (u32 t = 0; t < nt; t++)
    for (u32 i = 0; i < per; i++) plan[t].push_back({sim::wl(5) ? hot[sim::wl(nh)] : (u32)sim::wl(n), sim::wl(2) == 0, 0, 0, false, (int)t});
  int relaxed = (int)sim::wl(2);
  sim::note("%u bits in words of %u, %u threads, %u operations each, %s", n, BITS, nt, per, relaxed ? "set/get" : "atomic_set/atomic_get");
  sim::probe(sizeof(W) == 8 ? "64-bit words" : sizeof(W) == 4 ? "32-bit words" : "8-bit words");
  using V = AtomicBitVector<W>;
  std::optional<V> b;
  std::vector<u64> order, order2;
  u64 cutoff = 1 + sim::wl(4);
  sim::run([&] {
    if (fresh) b.emplace(n);
    else { b.emplace(n, false); b->clear(); }
    if (moved) {
      u64 had = sim::live_blocks();
      { V other(7); other.set(3); other = std::move(*b); b.emplace(std::move(other)); }
      if (sim::live_blocks() != had) sim::violation("leak", "moving a bitmap left %lld more blocks allocated", (long long)(sim::live_blocks() - had));
    }
    auto work = [&](std::vector<Op>& ops) {
      for (auto& o : ops) {
        W mask = W(1) << (o.bit % BITS);
        o.inv = sim::now_steps();
        W r;
        if (o.set) r = relaxed ? b->set(o.bit) : b->atomic_set(o.bit);
        else r = relaxed ? b->get(o.bit) : b->atomic_get(o.bit);
        o.res = sim::now_steps();
        if (r != 0 && r != mask) sim::violation("bitmap", "%s(%u) returned %llx, not the masked bit", o.set ? "set" : "get", o.bit, (unsigned long long)r);
        o.one = r != 0;
      }
    };
    std::vector<int> ids;
    for (u32 t = 1; t < nt; t++) ids.push_back(sim::client([&, t] { work(plan[t]); }));
    work(plan[0]);
    for (int id : ids) sim::join_client(id);
    for (auto i : *b) order.push_back(i);
    auto r = b->non_zeros(cutoff);
    for (auto i = r.begin(), e = r.end(); i != e; ++i) order2.push_back(*i);
  });
  sim::Quiet q;
  std::set<u32> bits;
  std::map<u32, std::vector<Op>> by;
  for (auto& p : plan) for (auto& o : p) by[o.bit].push_back(o);
  for (auto& [bit, ops] : by) {
    const Op* win = nullptr;
    bool any = false;
    for (auto& o : ops) {
      any |= o.set;
      if (o.set && !o.one) {
        if (win) sim::violation("bitmap", "two sets of bit %u (threads %d and %d) both saw it clear", bit, win->thread, o.thread);
        win = &o;
      }
    }
    if (any) bits.insert(bit);
    if (any && !win) sim::violation("bitmap", "bit %u was clear, was set, and no set saw it clear", bit);
    // a moment inside the winner's call must separate every answer 0 from every answer 1
    u64 lo = win ? win->inv : 0, hi = win ? win->res : ~0ull;
    for (auto& o : ops) {
      if (&o == win) continue;
      if (o.one) hi = std::min(hi, o.res); else lo = std::max(lo, o.inv);
      if (!win && o.one) sim::violation("bitmap", "bit %u read as set, nobody set it", bit);
    }
    if (win && lo > hi) sim::violation("bitmap", "the answers about bit %u cannot be put in order: one said 0 after another had said 1 (or a set had returned)", bit);
  }
  std::vector<u64> want(bits.begin(), bits.end());
  if (order != want) sim::violation("bitmap", "iteration gives %zu set bits, expected %zu", order.size(), want.size());
  if (order2 != want) sim::violation("bitmap", "non_zeros gives %zu set bits, expected %zu", order2.size(), want.size());
  if (sim::preemptions() >= 2) sim::mark_nontrivial();
}
void scenario(int tier) {
  switch (sim::wl(4)) {
    case 0: case 1: one<std::uint64_t>(tier); break;
    case 2: one<std::uint32_t>(tier); break;
    default: one<std::uint8_t>(tier);
  }
}
}
const PropertyDef g_properties[] = {{"C13", scenario, "a run counts when at least 2 preemptions happened while 2 to 4 caller threads used one bitmap; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
