// PageRank: whatever the interleaving, the scores a call stops with are within the stated distance of the fixed point.
#include "variants.h"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/algorithms/page_rank.hpp"
#include "nwgraph/experimental/algorithms/page_rank.hpp"
#include <cmath>
using namespace h;

static std::vector<double> reference(const Csr& in, const std::vector<u32>& deg, double d) {
  u32 n = (u32)deg.size();
  std::vector<double> x(n, 1.0 / n), y(n);
  for (int it = 0; it < 2000; it++) {
    double err = 0;
    for (u32 i = 0; i < n; i++) {
      double z = 0;
      for (u32 k = in.idx[i]; k < in.idx[i + 1]; k++) z += x[in.to[k]] / deg[in.to[k]];
      y[i] = (1 - d) / n + d * z;
      err += std::fabs(y[i] - x[i]);
    }
    x.swap(y);
    if (err < 1e-15) break;
  }
  return x;
}

template <bool Vc, class G, class V, class R>
static void call(int ver, const G& g, const std::vector<V>& deg, std::vector<R>& pr, R d, R tol, std::size_t iters, std::size_t threads) {
  switch (ver) {
    case 0: page_rank(g, deg, pr, d, tol, iters, threads); break;
    case 1: page_rank_v4(g, deg, pr, d, tol, iters, threads); break;
    case 2: page_rank_v6(g, deg, pr, d, tol, iters); break;
    case 3: if constexpr (Vc) page_rank_v7(g, deg, pr, d, tol, iters); break;
    case 4: page_rank_v8(g, deg, pr, d, tol, iters); break;
    case 5: page_rank_v9(g, deg, pr, d, tol, iters, threads); break;
    case 6: page_rank_v10(g, deg, pr, d, tol, iters, threads); break;
    case 7: page_rank_v12(g, deg, pr, d, tol, iters, threads); break;
    case 8: page_rank_v13(g, deg, pr, d, tol, iters, threads); break;
    case 9: page_rank_v14(g, deg, pr, d, tol, iters); break;
    case 10: page_rank_v1(g, deg, pr, d, tol, iters); break;
    case 11: page_rank_v2(g, deg, pr, d, tol, iters); break;
    case 12: page_rank_v3(g, deg, pr, d, tol, iters); break;
    case 13: if constexpr (Vc) page_rank_vc(g, pr, d, tol, iters); break;
  }
}

JobP h::make_pr(GraphCtx& x) {
  static const char* names[] = {"page_rank", "page_rank_v4", "page_rank_v6", "page_rank_v7", "page_rank_v8", "page_rank_v9", "page_rank_v10", "page_rank_v12", "page_rank_v13", "page_rank_v14", "page_rank_v1", "page_rank_v2", "page_rank_v3", "page_rank_vc"};
  static const int   pick[]  = {0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10};
  static const double damp[] = {0.85, 0.5, 0.3, 0.7, 0.95, 0.1}, tols[] = {1e-4, 1e-3, 1e-2, 0.05, 0.3, 1e-6, 1e-8};
  static const std::size_t thr[] = {2, 1, 3, 4, 8};
  int ver = pick[sim::wl(17)];
  if (ver == 10) ver = 10 + (int)sim::wl(4);   // the sequential versions
  bool flt = sim::wl(3) == 2;
  double d = damp[sim::wl(6)], tol = tols[sim::wl(flt ? 5 : 7)];
  std::size_t threads = thr[sim::wl(5)];
  if (ver == 7 && tol > 1e-6) tol = 1e-6;   // drops contributions below the tolerance
  if ((ver == 8 || ver == 12) && tol > 1e-6) tol = 1e-6;
  if (ver == 7 || ver == 8 || ver == 12) flt = false;
  static const char* types[] = {"adjacency", "adjacency with weights", "adjacency of 64-bit ids", "adjacency of 16-bit ids", "vov"};
  int ty = (int)sim::wl(12);
  ty = ty < 8 ? 0 : ty - 7;
  if (ty == 3 && (x.dir.n > 60000 || x.dir.e.size() > 60000)) ty = 2;
  if (ty == 4 && (ver == 13 || ver == 3)) ver = 2;
  sim::note("%s damping %g tolerance %g threads %zu, %s, %s", names[ver], d, tol, threads, flt ? "float" : "double", types[ty]);
  sim::probe(types[ty]);
  sim::probe(names[ver]);
  std::vector<u32> deg(x.dir.n);
  for (u32 v = 0; v < x.dir.n; v++) deg[v] = x.d_out.idx[v + 1] - x.d_out.idx[v];
  auto pd = std::make_shared<std::vector<double>>(x.dir.n);
  auto pf = std::make_shared<std::vector<float>>(x.dir.n);
  auto check = [=, &x] {
    auto want = reference(x.d_in, deg, d);
    double sum = 0, scale = ver == 8 || ver == 12 ? 1.0 / x.dir.n : 1.0;
    u32 worst = 0;
    double wd = -1;
    for (u32 v = 0; v < x.dir.n; v++) {
      double got = (flt ? (double)(*pf)[v] : (*pd)[v]) * scale;
      if (!std::isfinite(got)) sim::violation("rank", "%s: score of %u is %g", names[ver], v, got);
      double e = std::fabs(got - want[v]);
      if (e > wd) { wd = e; worst = v; }
      sum += e;
    }
    // a sweep whose total change was below tol leaves a total error of at most d/(1-d)*tol, for any mix of old and new values read
    double lim = d / (1 - d) * tol;
    if (ver == 7) lim += d / (1 - d) * tol * x.dir.e.size();
    if (ver == 8 || ver == 12) lim = tol * 200 / (1 - d);
    lim += flt ? 4e-5 : 1e-11;
    if (sum > lim * 1.001)
      sim::violation("rank", "%s stopped at a total distance of %.3g from the fixed point, tolerance %g allows %.3g (vertex %u has %.9g, should be %.9g)", names[ver], sum, tol, lim, worst,
                     (flt ? (double)(*pf)[worst] : (*pd)[worst]) * scale, want[worst]);
  };
  auto on = [&](auto vc, auto held, auto degs) {
    return job(names[ver], [=] {
      if (flt) call<vc.value>(ver, held->g, degs, *pf, (float)d, (float)tol, 1000, threads);
      else call<vc.value>(ver, held->g, degs, *pd, d, tol, 1000, threads);
    }, [=, &x] { check(); same_rows(types[ty], held->g, x.d_in); });
  };
  using std::true_type; using std::false_type;
  Csr none; none.idx = {0};
  switch (ty) {
    case 1: return on(true_type{}, std::make_shared<Held<adjacency<1, int>>>(x.d_in, none), deg);
    case 2: return on(true_type{}, std::make_shared<Held<index_adjacency<1, u64, u64>>>(x.d_in, none), std::vector<u64>(deg.begin(), deg.end()));
    case 3: return on(true_type{}, std::make_shared<Held<index_adjacency<1, u16, u16>>>(x.d_in, none), std::vector<u16>(deg.begin(), deg.end()));
    case 4: return on(false_type{}, std::make_shared<Held<vov<1>>>(x.d_in, none), deg);
  }
  return job(names[ver], [=, &x] {
    if (flt) call<true>(ver, x.T, deg, *pf, (float)d, (float)tol, 1000, threads);
    else call<true>(ver, x.T, deg, *pd, d, tol, 1000, threads);
  }, check);
}
