// Parallel loops and reductions: every element is given to the operator exactly once, the reduction is the fold of the results.
#include "nw.h"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/AtomicBitVector.hpp"
#include "nwgraph/util/parallel_for.hpp"
#include <atomic>
#include <memory>
#include <optional>
#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
using namespace h;
namespace {
// affine maps modulo a prime: associative, not commutative, so order and multiplicity both show
struct Aff {
  u64 a = 1, b = 0;
  bool operator==(const Aff&) const = default;
};
constexpr u64 MOD = 1000003;
struct Compose { Aff operator()(const Aff& x, const Aff& y) const { return {x.a * y.a % MOD, (x.a * y.b + x.b) % MOD}; } };
struct Add { Aff operator()(const Aff& x, const Aff& y) const { return {(x.a + y.a) % MOD, (x.b + y.b) % MOD}; } };   // commutative: the ranges may be split in any order
Aff leaf(u64 k) { return {(k * 7919 + 3) % MOD, (k * 104729 + 11) % MOD}; }
struct Boom { u64 at; };

// A small loop or reduction made by the operator of another one: while its thread waits for it, it may take pieces of the outer loop.
u64 inner_loop(u64 key, int form, u32 m, bool cancellable) {
  u64 want = 0;
  for (u32 j = 0; j < m; j++) want += key + j;
  u64 got = 0;
  std::vector<u32> v;
  {
    sim::Quiet q;
    v.resize(m);
    std::iota(v.begin(), v.end(), 0);
  }
  switch (form) {
    case 0: got = nw::graph::parallel_reduce(splittable_range_adaptor(v.begin(), v.end(), 1), [&](u32 j) { return key + j; }, std::plus<u64>{}, (u64)0); break;
    case 1: {
      std::atomic<u64> sum{0};
      nw::graph::parallel_for(splittable_range_adaptor(v.begin(), v.end(), 1), [&](u32 j) { sum += key + j; });
      got = sum;
      break;
    }
    default: {
      std::atomic<u64> sum{0};
      tbb::parallel_for(tbb::blocked_range<u32>(0, m), [&](auto&& r) { for (u32 j = r.begin(); j != r.end(); ++j) sum += key + j; });
      got = sum;
    }
  }
  if (got != want && !cancellable) sim::violation("loop", "a loop of %u elements inside the operator gave %llu, expected %llu", m, (unsigned long long)got, (unsigned long long)want);
  return got;
}
struct Call {
  virtual ~Call() = default;
  virtual void run() = 0;
  virtual void check() = 0;
};
// Keys: what the operator was given, as one number.  Each range kind says how to turn its arguments into keys.
template <class R, class Op>
struct Driven : Call {
  static constexpr const char* hows[] = {"parallel_for", "parallel_reduce sum", "parallel_reduce max", "parallel_reduce min", "parallel_reduce of pairs", "parallel_for with a throwing operator", "parallel_reduce with a throwing operator", "parallel_for_sequential", "parallel_for_sequential reduction"};
  const char* w;
  R& range;
  const std::vector<u64>& keys;
  bool ordered;
  Op make_op;
  int how, nested;
  u32 nested_m;
  std::vector<std::atomic<u32>> seen;
  std::vector<std::pair<u64, u32>> index;
  u64 bad, init;
  bool throwing;
  Aff ainit;
  u64 sum = 0, mx = 0, mn = 0;
  Aff comp;
  bool threw = false;
  u64 what = 0;
  Driven(const char* w_, R& r, const std::vector<u64>& k, bool o, Op m, int how_, int nested_, u32 nm) : w(w_), range(r), keys(k), ordered(o), make_op(m), how(how_), nested(nested_), nested_m(nm), seen(k.size()) {
    sim::probe(hows[how]);
    for (u32 i = 0; i < keys.size(); i++) index.push_back({keys[i], i});
    std::sort(index.begin(), index.end());
    bad = keys.empty() ? 0 : keys[sim::wl(keys.size())];
    throwing = how == 5 || how == 6;
    init = sim::wl(4) == 0 ? 0 : 1 + sim::wl(1000);
    ainit = {sim::wl(MOD), sim::wl(MOD)};
  }
  void run() override {
    auto touch = [&](u64 key) {
      {
        sim::Quiet q;
        auto it = std::lower_bound(index.begin(), index.end(), std::make_pair(key, 0u));
        if (it == index.end() || it->first != key) sim::violation("loop", "%s over %s: the operator was given %llx, which is not in the range", hows[how], w, (unsigned long long)key);
        // equal keys (parallel edges) share the slots of their run
        auto e = it;
        while (e != index.end() && e->first == key && seen[e->second] != 0) ++e;
        if (e == index.end() || e->first != key) sim::violation("loop", "%s over %s: element %llx was given to the operator once too often", hows[how], w, (unsigned long long)key);
        seen[e->second] = 1;
      }
      if (nested) inner_loop(key, nested - 1, nested_m, throwing);   // an exception elsewhere cancels nested loops too
      if (throwing && key == bad) throw Boom{key};
      return key;
    };
    auto op = make_op(touch);
    auto aop = [&](auto&&... xs) { return leaf(op(std::forward<decltype(xs)>(xs)...)); };
    try {
      switch (how) {
        case 0: case 5: nw::graph::parallel_for(range, op); break;
        case 1: case 6: sum = nw::graph::parallel_reduce(range, op, std::plus<u64>{}, init); break;
        case 2: mx = nw::graph::parallel_reduce(range, op, nw::graph::max{}, init); break;
        case 3: mn = nw::graph::parallel_reduce(range, op, nw::graph::min{}, init); break;
        case 4: comp = nw::graph::parallel_reduce(range, aop, Add{}, ainit); break;
        case 7: nw::graph::parallel_for_sequential(range, op); break;
        case 8: comp = nw::graph::parallel_for_sequential(range, aop, Compose{}, ainit); break;
      }
    } catch (Boom& b) { threw = true; what = b.at; }
  }
  void check() override {
    if (throwing) {
      if (!keys.empty() && !threw) sim::violation("loop", "%s over %s: the operator threw, the call returned normally", hows[how], w);
      if (threw && what != bad) sim::violation("loop", "%s over %s: the exception that came out is not the one thrown", hows[how], w);
      return;
    }
    if (threw) sim::violation("loop", "%s over %s: an exception from nowhere", hows[how], w);
    for (u32 i = 0; i < keys.size(); i++)
      if (!seen[i]) sim::violation("loop", "%s over %s: element %llx was never given to the operator", hows[how], w, (unsigned long long)keys[i]);
    u64 ws = init, wx = init, wn = init;
    Aff wc = ainit;
    for (u64 k : keys) { ws += k; wx = std::max(wx, k); wn = std::min(wn, k); wc = how == 4 ? Add{}(wc, leaf(k)) : Compose{}(wc, leaf(k)); }
    if (how == 1 && sum != ws) sim::violation("loop", "%s over %s: sum from %llu is %llu, expected %llu", hows[how], w, (unsigned long long)init, (unsigned long long)sum, (unsigned long long)ws);
    if (how == 2 && mx != wx) sim::violation("loop", "%s over %s: %llu, expected %llu", hows[how], w, (unsigned long long)mx, (unsigned long long)wx);
    if (how == 3 && mn != wn) sim::violation("loop", "%s over %s: %llu, expected %llu", hows[how], w, (unsigned long long)mn, (unsigned long long)wn);
    if ((how == 4 || (how == 8 && ordered)) && !(comp == wc)) sim::violation("loop", "%s over %s: results were not combined once each", hows[how], w);
  }
};
template <class R, class Op>
void drive(const char* w, R range, const std::vector<u64>& keys, bool ordered, Op make_op) {
  // one caller, or several at once, each with its own copy of the range; the operators may loop in parallel themselves
  u32 nc = keys.size() < 400 && sim::wlp(15) ? 2 + (u32)sim::wl(2) : 1;
  int nested = keys.size() < 200 && sim::wlp(20) ? 1 + (int)sim::wl(3) : 0;
  u32 nm = nested ? 2 + (u32)sim::wl(nested == 3 ? 12 : 6) : 0;
  std::vector<R> ranges(nc, range);
  std::vector<std::unique_ptr<Call>> calls;
  for (u32 i = 0; i < nc; i++) {
    int how = (int)sim::wl(9);
    sim::note("%s over %s, %zu elements%s", Driven<R, Op>::hows[how], w, keys.size(), !nested ? "" : nested == 1 ? ", the operator reduces" : nested == 2 ? ", the operator loops" : ", the operator uses tbb::parallel_for");
    calls.push_back(std::make_unique<Driven<R, Op>>(w, ranges[i], keys, ordered, make_op, how, nested, nm));
  }
  sim::probe(w);
  if (nested) sim::probe("the operator loops in parallel");
  if (nc > 1) sim::probe("several callers");
  sim::run([&] {
    std::vector<int> ids;
    for (u32 i = 1; i < nc; i++) ids.push_back(sim::client([&, i] { calls[i]->run(); }));
    calls[0]->run();
    for (int id : ids) sim::join_client(id);
  });
  {
    sim::Quiet q;
    for (auto& c : calls) c->check();
  }
  if (keys.size() > 2 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
void scenario(int tier) {
  int kind = (int)sim::wl(9);
  static const int cuts[] = {1, 2, 3, 4, 7, 8, 16, 64};
  std::size_t cut = cuts[sim::wl(8)];
  auto one = [](auto& touch) { return [&touch](auto&& x) -> u64 { return touch((u64)x); }; };
  if (kind <= 1) {
    u32 n = (u32)sim::wl(sim::wl(2) ? 20 : 400);
    std::vector<u32> v(n);
    std::vector<u64> keys(n);
    for (u32 i = 0; i < n; i++) keys[i] = v[i] = i * 7 + 1;
    if (kind == 0) drive("a splittable range", splittable_range_adaptor(v.begin(), v.end(), cut), keys, true, one);
    else drive("a cyclic range", cyclic(v, (int)cut), keys, false, one);
    return;
  }
  if (kind == 2) {
    u32 n = (u32)sim::wl(300);
    if (sim::wl(200) == 199) { n += sim::wl(3) == 2 ? 66000 : 3000; sim::scale_budget(20); }
    std::vector<u64> keys(n);
    std::iota(keys.begin(), keys.end(), 0);
    drive("a vertex range", vertex_range<adjacency<0>>(n), keys, true, one);
    return;
  }
  if (kind == 3) {
    u32 n = (u32)sim::wl(1, 2000);
    if (sim::wl(200) == 199) { n += 66000; sim::scale_budget(20); }
    std::optional<AtomicBitVector<>> b;
    sim::run([&] { b.emplace(n); });
    std::vector<u64> keys;
    u32 dens = 1 + (u32)sim::wl(100), lo = (u32)sim::wl(n), hi = lo + (u32)sim::wl(n - lo + 1);
    for (u32 i = 0; i < n; i++) if ((i < lo || i >= hi) && sim::wl(100) < dens) { b->set(i); keys.push_back(i); }
    drive("the set bits of a bitmap", b->non_zeros(1 + sim::wl(4)), keys, true, one);
    return;
  }
  GenOpts o;
  o.small = 12; o.medium = 80; o.large = tier ? 400 : 250;
  o.huge = 1;
  Gr g = gen_graph(o);
  note_graph(g);
  Csr c = csr(g, false, false);
  auto A = to_adjw<0, int>(c);
  for (std::size_t k = 0; k < c.to.size(); k++) std::get<1>(A.to_be_indexed_)[k] = (int)k;
  const auto& CA = A;
  std::vector<u64> rows(g.n), edges, pairs;
  std::iota(rows.begin(), rows.end(), 0);
  for (u32 u = 0; u < g.n; u++) for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) { edges.push_back((u64)u << 32 | k); pairs.push_back((u64)u << 32 | c.to[k]); }
  auto vn = [&](auto& touch) { return [&](auto&& u, auto&& nb) -> u64 {
    if ((u32)u >= g.n || (u32)nb.size() != c.idx[u + 1] - c.idx[u]) sim::violation("loop", "vertex %u given with a wrong neighbourhood", (u32)u);
    return touch((u64)u); }; };
  switch (kind) {
    case 4: drive("a neighbor range", make_neighbor_range(CA), rows, true, vn); break;
    case 5: drive("a cyclic neighbor range", cyclic_neighbor_range(A, (int)cut), rows, false, vn); break;
    case 6: drive("an edge range with properties", make_edge_range<0>(A), edges, true, [&](auto& touch) { return [&](auto&& u, auto&& v, auto&& w) -> u64 {
              if ((u32)w >= c.to.size() || c.to[w] != (u32)v) sim::violation("loop", "edge %u to %u given with property %d", (u32)u, (u32)v, (int)w);
              return touch((u64)u << 32 | (u32)w); }; }); break;
    case 7: drive("an edge range", make_edge_range(CA), pairs, true, [&](auto& touch) { return [&](auto&& u, auto&& v) -> u64 { return touch((u64)u << 32 | (u32)v); }; }); break;
    default: drive("a plain range", make_plain_range(CA), rows, true, one);
  }
}
}
const PropertyDef g_properties[] = {{"C12", scenario, "a run counts when the range has more than 2 elements and at least 2 preemptions happened inside the call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
