// Single-source shortest paths: every delta-stepping version returns exact distances.
#include "variants.h"
#include "nwgraph/algorithms/delta_stepping.hpp"
#include "nwgraph/experimental/algorithms/delta_stepping.hpp"
#include <queue>
using namespace h;

static std::vector<u64> dijkstra_ref(const Csr& c, u32 root) {
  std::vector<u64> d(c.idx.size() - 1, ~0ull);
  std::priority_queue<std::pair<u64, u32>, std::vector<std::pair<u64, u32>>, std::greater<>> q;
  d[root] = 0;
  q.push({0, root});
  while (!q.empty()) {
    auto [x, u] = q.top();
    q.pop();
    if (x != d[u]) continue;
    for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++)
      if (x + c.w[k] < d[c.to[k]]) { d[c.to[k]] = x + c.w[k]; q.push({d[c.to[k]], c.to[k]}); }
  }
  return d;
}

// The same in the arithmetic of the distance type: rounding is monotone, so the least rounded sum is what every version must end at.
template <class D>
static std::vector<double> rounded_ref(const Csr& c, u32 root) {
  std::vector<D> d(c.idx.size() - 1, std::numeric_limits<D>::max());
  std::priority_queue<std::pair<D, u32>, std::vector<std::pair<D, u32>>, std::greater<>> q;
  d[root] = 0;
  q.push({0, root});
  while (!q.empty()) {
    auto [x, u] = q.top();
    q.pop();
    if (x != d[u]) continue;
    for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) {
      D y = x + (int)c.w[k] / 7.0;
      if (y < d[c.to[k]]) { d[c.to[k]] = y; q.push({y, c.to[k]}); }
    }
  }
  std::vector<double> r(d.size());
  for (std::size_t v = 0; v < r.size(); v++) r[v] = d[v] == std::numeric_limits<D>::max() ? -1.0 : (double)d[v];
  return r;
}
template <class D, bool Plain, bool First, class G, class W, class Delta>
static std::vector<double> call(int ver, const G& g, u32 root, Delta delta, W w) {
  std::vector<double> r;
  auto copy = [&](const auto& v) { r.resize(v.size()); for (std::size_t i = 0; i < v.size(); i++) { D d = v[i]; r[i] = d == std::numeric_limits<D>::max() ? -1.0 : (double)d; } };
  switch (ver) {
    case 0: copy(delta_stepping<D>(g, root, delta, w)); break;
    case 1: if constexpr (First) copy(delta_stepping<D>(g, root, delta)); break;
    case 2: copy(delta_stepping_m1<D>(g, root, (D)std::max<double>(1, delta), w)); break;
    case 3: if constexpr (First) copy(delta_stepping_v6<D>(g, root, delta)); break;
    case 4: copy(delta_stepping_v8<D>(g, root, delta, w)); break;
    case 5: copy(delta_stepping_v9<D>(g, root, delta, w)); break;
    case 6: copy(delta_stepping_v10<D>(g, root, delta, w)); break;
    case 7: if constexpr (!Plain) copy(delta_stepping_v11<D>(g, root, delta, w)); break;
  }
  return r;
}
struct First { auto& operator()(auto& e) const { return std::get<1>(e); } };
struct Second { auto& operator()(auto& e) const { return std::get<2>(e); } };
struct Seventh { double operator()(auto& e) const { return std::get<1>(e) / 7.0; } };   // sums that have to be rounded
using Two = adjacency<0, int, double>;     // the weight is the second property
using Wide = index_adjacency<0, u64, u64, double>;
using Small = index_adjacency<0, u16, u16, u16>;

JobP h::make_sssp(GraphCtx& x) {
  static const char* names[] = {"delta_stepping(weight)", "delta_stepping", "delta_stepping_m1", "delta_stepping_v6", "delta_stepping_v8", "delta_stepping_v9", "delta_stepping_v10", "delta_stepping_v11"};
  static const int   pick[]  = {1, 1, 1, 1, 1, 0, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 7};
  static const std::size_t deltas[] = {1, 2, 3, 5, 10, 30, 1000};
  u32 root = (u32)sim::wl(x.dir.n);
  int ver = pick[sim::wl(18)];
  std::size_t delta = deltas[sim::wl(7)];
  static const char* dists[] = {"uint64", "int", "float", "double", "uint32"};
  int ty = (int)sim::wl(5);
  static const char* types[] = {"adjacency", "adjacency with two properties", "adjacency of 64-bit ids, weights double", "adjacency of 16-bit ids and weights", "vector of vectors", "adjacency, a seventh of each weight"};
  int gt = (int)sim::wl(13);
  gt = gt < 8 ? 0 : gt - 7;
  if (gt == 5 && (ver == 1 || ver == 3)) ver = 0;
  if (gt == 1 && (ver == 1 || ver == 3)) ver = 0;
  if (gt == 4 && (ver == 1 || ver == 3 || ver == 7)) ver = 0;
  if (gt == 3 && (x.dir.n > 60000 || x.dir.e.size() > 60000)) gt = 2;
  // a bucket width that is a fraction: distances that are multiples of it fall on the edge between two buckets
  static const double fractions[] = {0.07, 0.1, 0.3, 0.5, 0.7, 1.1, 2.5, 3.7};
  double part = (gt <= 1 || gt == 5) && sim::wlp(20) ? fractions[sim::wl(8)] : 0;
  if (part && gt == 5) part = (1 + (int)sim::wl(11)) / 7.0;
  u64 top = 0;
  for (u32 w : x.d_out.w) top += w;
  if (gt == 3 && top > 0xffff) gt = 0;
  if (gt == 2 && top >= 1u << 24) gt = 0;
  u32 most = x.d_out.w.empty() ? 0 : *std::max_element(x.d_out.w.begin(), x.d_out.w.end());
  if (most > 100000) delta = most / deltas[sim::wl(5)];      // buckets are numbered from zero up to the longest distance
  if (gt == 5) ty = 2 + (int)sim::wl(2);
  else if (gt && ty != 0 && ty != gt) ty = gt;      // 1 int, 2 float, 3 double, 4 uint32
  if (top >= 1u << 24) { ty = ty == 3 ? 3 : 0; if (gt == 5) gt = 0; }    // the others could not hold the distances exactly
  u64 longest = 0;
  for (u64 d : dijkstra_ref(x.d_out, root)) if (d != ~0ull) longest = std::max(longest, d);
  if (part && longest / part > 5000) part = 0;
  if (longest > 70000 && sim::wl(50) == 49) { delta = std::max<u64>(1, longest / (65600 + sim::wl(60000))); sim::scale_budget(4); sim::probe("over 65000 buckets"); }
  if (part) { sim::note("%s from %u, delta %g, distances as %s, %s", names[ver], root, part, dists[ty], types[gt]); sim::probe("fraction as bucket width"); }
  else sim::note("%s from %u, delta %zu, distances as %s, %s", names[ver], root, delta, dists[ty], types[gt]);
  sim::probe(names[ver]);
  sim::probe(types[gt]);
  auto p = std::make_shared<std::vector<double>>();
  auto check = [=, &x] {
    if (gt == 5) {
      auto d = ty == 2 ? rounded_ref<float>(x.d_out, root) : rounded_ref<double>(x.d_out, root);
      if (p->size() != d.size()) sim::violation("distance", "%s: %zu distances for %zu vertices", names[ver], p->size(), d.size());
      for (u32 v = 0; v < d.size(); v++)
        if ((*p)[v] != d[v]) sim::violation("distance", "%s from %u: distance of %u is %.9g, the shortest path has length %.9g (-1: unreachable)", names[ver], root, v, (*p)[v], d[v]);
      return;
    }
    auto d = dijkstra_ref(x.d_out, root);
    if (p->size() != d.size()) sim::violation("distance", "%s: %zu distances for %zu vertices", names[ver], p->size(), d.size());
    for (u32 v = 0; v < d.size(); v++) {
      double want = d[v] == ~0ull ? -1.0 : (double)d[v];
      if ((*p)[v] != want) sim::violation("distance", "%s from %u: distance of %u is %g, the shortest path has length %g (-1: unreachable)", names[ver], root, v, (*p)[v], want);
    }
  };
  auto run = [=]<bool Plain, bool F, int GT>(const auto& g, auto w) {
    using Ds = std::tuple<u64, int, float, double, u32>;
    auto with = [&]<class D>() {
      if constexpr (GT <= 1 || GT == 5) { if (part) { *p = call<D, Plain, F>(ver, g, root, part, w); return; } }
      *p = call<D, Plain, F>(ver, g, root, delta, w);
    };
    if constexpr (GT == 5) {
      if (ty == 2) with.template operator()<float>();
      else with.template operator()<double>();
    } else if constexpr (GT != 0) {
      if (ty == 0) with.template operator()<u64>();
      else with.template operator()<std::tuple_element_t<GT, Ds>>();
    } else switch (ty) {
      case 0: with.template operator()<u64>(); break;
      case 1: with.template operator()<int>(); break;
      case 2: with.template operator()<float>(); break;
      case 3: with.template operator()<double>(); break;
      case 4: with.template operator()<u32>(); break;
    }
  };
  auto on = [&](auto tag, auto plain, auto first, auto weight, auto held) {
    return job(names[ver], [=] { run.template operator()<plain.value, first.value, tag.value>(held->g, weight); }, [=, &x] { check(); same_rows(types[gt], held->g, x.d_out); });
  };
  using std::true_type; using std::false_type;
  switch (gt) {
    case 1: return on(std::integral_constant<int, 1>{}, false_type{}, false_type{}, Second{}, std::make_shared<Held<Two>>(x.d_out, x.d_out));
    case 2: return on(std::integral_constant<int, 2>{}, false_type{}, true_type{}, First{}, std::make_shared<Held<Wide>>(x.d_out, x.d_out));
    case 3: return on(std::integral_constant<int, 3>{}, false_type{}, true_type{}, First{}, std::make_shared<Held<Small>>(x.d_out, x.d_out));
    case 4: return on(std::integral_constant<int, 4>{}, true_type{}, false_type{}, First{}, std::make_shared<Held<VVW>>(x.d_out, x.d_out));
    case 5: return job(names[ver], [=, &x] { run.template operator()<false, false, 5>(x.WA, Seventh{}); }, check);
  }
  return job(names[ver], [=, &x] { run.template operator()<false, true, 0>(x.WA, First{}); }, check);
}
