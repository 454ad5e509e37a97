// Splittable ranges: however a range is split, the pieces hold every element exactly once.
#include "nw.h"
#include "nwgraph/adaptors/cyclic_neighbor_range.hpp"
#include "nwgraph/adaptors/cyclic_range_adaptor.hpp"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/adaptors/neighbor_range.hpp"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/adaptors/splittable_range_adaptor.hpp"
#include "nwgraph/adaptors/vertex_range.hpp"
#include "nwgraph/util/AtomicBitVector.hpp"
#include <atomic>
#include <optional>
#include <tbb/parallel_for.h>
#include <tbb/partitioner.h>
using namespace h;
namespace {
using Key = u64;
struct Sink {
  std::atomic<u64> n{0};
  std::vector<Key> v;
  explicit Sink(std::size_t cap) : v(cap) {}
  void put(Key k) { u64 i = n.fetch_add(1); if (i < v.size()) v[i] = k; }
};
void compare(const char* w, Sink& s, std::vector<Key> want) {
  sim::Quiet q;
  if (s.n > s.v.size()) sim::violation("range", "%s: %llu elements visited, the range has %zu", w, (unsigned long long)s.n.load(), want.size());
  std::vector<Key> got(s.v.begin(), s.v.begin() + s.n);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (std::size_t k = 0; k < got.size() || k < want.size(); k++)
    if (k >= got.size() || k >= want.size() || got[k] != want[k]) {
      bool extra = k >= want.size() || (k < got.size() && got[k] < want[k]);
      sim::violation("range", "%s: element %llx visited %s (%zu visits, %zu elements)", w, (unsigned long long)(extra ? got[k] : want[k]), extra ? "once too often" : "too rarely", got.size(), want.size());
    }
}
// how a range is taken apart: by hand, or by the task scheduler under one of its partitioners
template <bool cyc = false, class R, class Visit>
void drive(const char* w, const R& range, Visit visit, const std::vector<Key>& want, bool sized) {
  int how = (int)sim::wl(5);
  sim::note("%s: %s", w, how == 0 ? "split by hand" : how == 1 ? "simple partitioner" : how == 2 ? "static partitioner" : "auto partitioner");
  sim::probe(w);
  Sink s(want.size() + 8);
  auto body = [&](auto&& r) { auto e = r.end(); for (auto i = r.begin(); i != e; ++i) s.put(visit(*i)); };
  if (how == 0) {
    std::vector<R> parts;
    parts.reserve(4096);
    parts.push_back(range);
    std::size_t limit = 1 + sim::wl(60), before = 0;
    if (sized) before = range.size();
    for (std::size_t k = 0; k < limit; k++) {
      std::size_t i = sim::wl(parts.size());
      if (!parts[i].is_divisible()) continue;
      parts.emplace_back(parts[i], tbb::split());
    }
    if (sized) {
      std::size_t total = 0;
      for (auto& p : parts) {
        std::size_t count = 0;
        auto e = p.end();
        for (auto i = p.begin(); i != e && count <= want.size(); ++i) count++;
        if (count != (std::size_t)p.size()) sim::violation("range", "%s: a piece says it has %zu elements, it gives %zu", w, (std::size_t)p.size(), count);
        total += p.size(); if (p.empty() != (p.size() == 0)) sim::violation("range", "%s: a piece of %zu elements says it is %sempty", w, (std::size_t)p.size(), p.empty() ? "" : "not ");
      }
      if (total != before) sim::violation("range", "%s: %zu pieces of %zu elements altogether, the range had %zu", w, parts.size(), total, before);
    }
    for (std::size_t k = parts.size(); k > 1; k--) { std::size_t j = sim::wl(k); if (j != k - 1) { std::vector<R> t; t.push_back(parts[j]); t.push_back(parts[k - 1]); std::destroy_at(&parts[j]); std::construct_at(&parts[j], t[1]); std::destroy_at(&parts[k - 1]); std::construct_at(&parts[k - 1], t[0]); } }
    sim::run([&] { for (auto& p : parts) body(p); });
    if (parts.size() > 2) sim::mark_nontrivial();
  } else {
    sim::run([&] {
      R r(range);
      if (how == 1) tbb::parallel_for(r, body, tbb::simple_partitioner());
      else if (how == 2) { if constexpr (!cyc) tbb::parallel_for(r, body, tbb::static_partitioner()); else tbb::parallel_for(r, body); }   // cyclic ranges do not compile with it
      else tbb::parallel_for(r, body);
    });
    if (want.size() > 2 && sim::preemptions() >= 2) sim::mark_nontrivial();
  }
  compare(w, s, want);
}
void scenario(int tier) {
  int kind = (int)sim::wl(9);
  static const int cuts[] = {1, 2, 3, 4, 7, 8, 16, 64, 300};
  std::size_t cut = cuts[sim::wl(9)];
  GenOpts o;
  o.small = 12; o.medium = 80; o.large = tier ? 500 : 300;
  o.huge = 1;
  if (kind <= 1) {
    u32 n = sim::wl(8) == 0 ? (u32)sim::wl(20000, 40000) : (u32)sim::wl(sim::wl(2) ? 20 : 400);
    if (n >= 20000) cut = 16384;
    std::vector<u32> v(n);
    std::vector<Key> want(n);
    for (u32 i = 0; i < n; i++) want[i] = v[i] = i * 7 + 1;
    sim::note("%u elements, cutoff %zu", n, cut);
    auto id = [](auto&& x) { return (Key)x; };
    if (kind == 0) {
      if (cut == 16384 && sim::wl(2)) drive("splittable_range_adaptor", splittable_range_adaptor(v), id, want, true);
      else drive("splittable_range_adaptor", splittable_range_adaptor(v.begin(), v.end(), cut), id, want, true);
    } else {
      // a cycle starts inside the range only when the range is at least as long as the largest stride
      drive<true>("cyclic", cyclic(v, (int)std::min<std::size_t>(cut, 256)), id, want, true);
    }
    return;
  }
  if (kind == 2) {
    u32 n = (u32)sim::wl(sim::wl(2) ? 64 : 2000);
    sim::note("vertex range of %u", n);
    std::vector<Key> want(n);
    std::iota(want.begin(), want.end(), 0);
    drive("vertex_range", vertex_range<adjacency<0>>(n), [](auto&& x) { return (Key)x; }, want, true);
    return;
  }
  if (kind == 3) {
    u32 n = (u32)sim::wl(1, sim::wl(3) == 0 ? 4000 : 300);
    if (sim::wl(60) == 59) n += 66000;
    std::optional<AtomicBitVector<>> bb;
    sim::run([&] { bb.emplace(n); });
    auto& b = *bb;
    std::vector<Key> want;
    u32 dens = 1 + (u32)sim::wl(100), lo = (u32)sim::wl(n), hi = lo + (u32)sim::wl(n - lo + 1);
    for (u32 i = 0; i < n; i++) if ((i < lo || i >= hi) && sim::wl(100) < dens) { b.set(i); want.push_back(i); }
    cut = 1 + sim::wl(5);
    sim::note("%zu of %u bits set, cutoff %zu words", want.size(), n, cut);
    drive("bitmap non_zeros", b.non_zeros(cut), [](auto&& x) { return (Key)x; }, want, false);
    return;
  }
  if (kind == 4) {   // blocks of a block partition
    std::size_t N = sim::wl(1000), n = 1 + sim::wl(40);
    static const std::size_t big[] = {70000, 1ul << 20, (1ul << 32) + 5, 1ul << 53};
    if (sim::wl(8) == 7) N += big[sim::wl(4)];
    if (sim::wl(8) == 7) n += sim::wl(3000);
    sim::note("%zu elements in %zu blocks", N, n);
    sim::probe("block");
    std::size_t at = 0;
    for (std::size_t id = 0; id < n; id++) {
      auto [b, e] = nw::graph::block(N, n, id);
      if (b != at || e < b || e > N) sim::violation("range", "block %zu of %zu over %zu is [%zu, %zu), the one before ends at %zu", id, n, N, b, e, at);
      if (e - b > N / n + 1) sim::violation("range", "block %zu of %zu over %zu has %zu elements", id, n, N, e - b);
      at = e;
    }
    if (at != N) sim::violation("range", "%zu blocks over %zu end at %zu", n, N, at);
    return;
  }
  Gr g = gen_graph(o);
  note_graph(g);
  Csr c = csr(g, false, false);
  auto A = to_adjw<0, int>(c);
  for (std::size_t k = 0; k < c.to.size(); k++) std::get<1>(A.to_be_indexed_)[k] = (int)k;
  const auto& CA = A;
  auto row_ok = [&](const char* w, u32 u, auto&& nb) {
    std::size_t k = c.idx[u], n = 0;
    for (auto&& e : nb) { if (k + n >= c.to.size() || std::get<0>(e) != c.to[k + n]) sim::violation("range", "%s: neighbour %zu of %u is %u", w, n, u, (u32)std::get<0>(e)); n++; }
    if (n != c.idx[u + 1] - c.idx[u]) sim::violation("range", "%s: vertex %u given with %zu neighbours, it has %u", w, u, n, c.idx[u + 1] - c.idx[u]);
  };
  std::vector<Key> rows(g.n), edges;
  std::iota(rows.begin(), rows.end(), 0);
  for (u32 u = 0; u < g.n; u++) for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) edges.push_back((Key)u << 32 | k);
  u32 off = sim::wl(4) == 0 ? (u32)sim::wl(g.n) : 0;
  auto tail = rows;
  tail.erase(tail.begin(), tail.begin() + off);
  auto etail = edges;
  etail.erase(etail.begin(), etail.begin() + c.idx[off]);
  switch (kind) {
    case 5: {
      auto vis = [&](auto&& t) { u32 u = (u32)std::get<0>(t); if (u >= g.n) sim::violation("range", "neighbor_range: vertex %u of %u", u, g.n); row_ok("neighbor_range", u, std::get<1>(t)); return (Key)u; };
      if (sim::wl(2)) drive("neighbor_range", make_neighbor_range(CA, off), vis, tail, true);
      else drive("neighbor_range", make_neighbor_range(A, off), vis, tail, true);
    } break;
    case 6: {
      auto vis = [&](auto&& t) { u32 u = (u32)std::get<0>(t); if (u >= g.n) sim::violation("range", "cyclic_neighbor_range: vertex %u of %u", u, g.n); row_ok("cyclic_neighbor_range", u, std::get<1>(t)); return (Key)u; };
      drive<true>("cyclic_neighbor_range", cyclic_neighbor_range(A, (int)std::min<std::size_t>(cut, 256)), vis, rows, true);
    } break;
    case 7: {
      auto vis = [&](auto&& t) {
        auto&& [u, v, w] = t;
        if (u >= g.n || (u32)w >= c.to.size() || c.to[w] != v) sim::violation("range", "edge_range: edge %u to %u with property %d", (u32)u, (u32)v, (int)w);
        return (Key)u << 32 | (u32)w;
      };
      if (sim::wl(2)) {   // without properties: tell parallel edges apart by counting
        for (auto& k : etail) k = (k >> 32) << 32 | c.to[(u32)k];
        drive("edge_range", make_edge_range(CA, off), [](auto&& t) { return (Key)std::get<0>(t) << 32 | (u32)std::get<1>(t); }, etail, false);
      } else drive("edge_range", make_edge_range<0>(A, off), vis, etail, false);
    } break;
    default:
      drive("plain_range", make_plain_range(CA, off), [](auto&& t) { return (Key)std::get<0>(t); }, tail, true);
  }
}
}
const PropertyDef g_properties[] = {{"C11", scenario, "a run counts when the range was split by hand into more than 2 pieces, or by the scheduler with at least 2 preemptions; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
