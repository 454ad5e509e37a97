// Betweenness centrality: the parallel versions return the dependencies accumulated over the given sources.
#include "variants.h"
#include "nwgraph/algorithms/betweenness_centrality.hpp"
#include "nwgraph/experimental/algorithms/betweenness_centrality.hpp"
#include <cmath>
#include <type_traits>
using namespace h;

static std::vector<double> reference(const Csr& c, u32 n, const std::vector<u32>& sources, bool with_source) {
  std::vector<double> bc(n, 0.0);
  for (u32 s : sources) {
    auto d = bfs_depth(c, s);
    std::vector<double> sigma(n, 0.0), delta(n, 0.0);
    std::vector<u32> order;
    for (u32 v = 0; v < n; v++) if (d[v] != NONE) order.push_back(v);
    std::sort(order.begin(), order.end(), [&](u32 a, u32 b) { return d[a] < d[b]; });
    sigma[s] = 1;
    for (u32 u : order)
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) if (d[c.to[k]] == d[u] + 1) sigma[c.to[k]] += sigma[u];
    for (auto it = order.rbegin(); it != order.rend(); ++it) {
      u32 u = *it;
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) if (d[c.to[k]] == d[u] + 1) delta[u] += sigma[u] / sigma[c.to[k]] * (1 + delta[c.to[k]]);
      if (u != s || with_source) bc[u] += delta[u];
    }
  }
  return bc;
}
// the largest number of shortest paths between a source and a vertex
static double most_paths(const Csr& c, u32 n, const std::vector<u32>& sources) {
  double most = 0;
  for (u32 s : std::set<u32>(sources.begin(), sources.end())) {
    auto d = bfs_depth(c, s);
    std::vector<double> sigma(n, 0.0);
    std::vector<u32> order;
    for (u32 v = 0; v < n; v++) if (d[v] != NONE) order.push_back(v);
    std::sort(order.begin(), order.end(), [&](u32 a, u32 b) { return d[a] < d[b]; });
    sigma[s] = 1;
    for (u32 u : order)
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) if (d[c.to[k]] == d[u] + 1) most = std::max(most, sigma[c.to[k]] += sigma[u]);
  }
  return most;
}
template <class S, class A, bool Plain, class G>
static std::vector<S> call(int ver, const G& g, const std::vector<vertex_id_t<G>>& sources, int threads, int pol, bool norm) {
  namespace ex = std::execution;
  switch (ver) {
    case 0: if constexpr (!Plain) return pol == 1 ? brandes_bc<S, A>(g, sources, threads, ex::par, ex::seq, norm) : pol == 2 ? brandes_bc<S, A>(g, sources, threads, ex::seq, ex::par, norm) : brandes_bc<S, A>(g, sources, threads, ex::par_unseq, ex::par_unseq, norm); break;
    case 1: if constexpr (!Plain) return exact_brandes_bc<S, A, G>(g, threads, {}, {}, norm); break;
    case 2: if constexpr (!Plain) return bc2_v2<G, S, A>(g, sources, {}, norm); break;
    case 3: if constexpr (!Plain) return bc2_v3<G, S, A>(g, sources, {}, {}, norm); break;
    case 5: return brandes_bc<G, S, A>(g, norm);
    case 6: return bc2_v0<G, S, A>(g, sources, norm);
    case 7: return bc2_v1<G, S, A>(g, sources, norm);
    case 8: { auto s = sources; return approx_betweenness_brandes<G, S, A>(g, s); }
    case 4: if constexpr (!Plain) return pol == 1 ? bc2_v4<S, A>(g, sources, threads, ex::par, ex::seq, norm) : bc2_v4<S, A>(g, sources, threads, ex::par_unseq, ex::par_unseq, norm); break;
  }
  return {};
}
JobP h::make_bc(GraphCtx& x) {
  static const char* names[] = {"brandes_bc(sources)", "exact_brandes_bc", "bc2_v2", "bc2_v3", "bc2_v4", "brandes_bc", "bc2_v0", "bc2_v1", "approx_betweenness_brandes"};
  static const int   pick[]  = {0, 0, 0, 0, 1, 2, 2, 3, 4, 4, 5};
  static const int   thr[]   = {2, 1, 3, 4, 8, 5};
  int ver = pick[sim::wl(11)];
  if (ver == 5) ver = 5 + (int)sim::wl(4);   // the sequential versions
  if ((ver == 1 || ver == 5) && x.dir.n > 30) ver = 0;
  bool directed = sim::wl(2);
  int threads = thr[sim::wl(6)], pol = (int)sim::wl(4), acc = (int)sim::wl(4);
  bool norm = sim::wl(3) == 2;
  if (ver == 8) norm = true;
  u32 k = 1 + (u32)sim::wl(3);
  std::vector<u32> src;
  for (u32 i = 0; i < k; i++) src.push_back((u32)sim::wl(x.dir.n));
  if (x.dir.n <= 40 && sim::wlp(15)) { u32 more = 3 + (u32)sim::wl(12); for (u32 i = 0; i < more; i++) src.push_back((u32)sim::wl(x.dir.n)); }
  if (ver == 1 || ver == 5) { src.clear(); for (u32 v = 0; v < x.dir.n; v++) src.push_back(v); }
  static const char* types[] = {"adjacency", "adjacency with weights", "adjacency of 64-bit ids", "adjacency of 16-bit ids", "vov"};
  int ty = (int)sim::wl(12);
  ty = ty < 8 ? 0 : ty - 7;
  if (ty == 3 && (x.dir.n > 60000 || x.sym.e.size() > 60000)) ty = 2;
  if (ty == 4 && ver <= 4) ver = 6;
  static const char* accs[] = {"double path counts", "size_t path counts", "double scores", "float path counts"};
  if (acc == 3) acc = 0;
  if (ty) acc = ty == 2 ? 2 : ty == 3 ? 1 : 0;
  if (acc == 1 && most_paths(directed ? x.d_out : x.s_out, x.dir.n, src) > 1e18) { acc = 0; if (ty == 3) ty = 1; }   // more than a size_t can count
  std::string ss;
  for (u32 s : src) ss += " " + std::to_string(s);
  sim::note("%s on the %s graph, sources%s, %d threads, policies %d, %s%s, %s", names[ver], directed ? "directed" : "symmetric", ss.c_str(), threads, pol, accs[acc], norm ? ", normalised" : "", types[ty]);
  sim::probe(types[ty]);
  sim::probe(names[ver]);
  auto rf = std::make_shared<std::vector<float>>();
  auto rd = std::make_shared<std::vector<double>>();
  auto check = [=, &x] {
    const Csr& c = directed ? x.d_out : x.s_out;
    u32 n = x.dir.n;
    auto want = reference(c, n, src, ver != 2 && ver != 5 && ver != 7 && ver != 8);
    std::vector<double> got(rd->begin(), rd->end());
    if (acc != 2) got.assign(rf->begin(), rf->end());
    if (got.size() != n) sim::violation("centrality", "%s: %zu scores for %u vertices", names[ver], got.size(), n);
    double mx = *std::max_element(want.begin(), want.end());
    if (norm && mx == 0) return;      // 0/0: no score to normalise by
    for (u32 v = 0; v < n; v++) {
      double w = norm ? want[v] / mx : want[v];
      double tol = acc == 2 ? 1e-9 * w + 1e-12 : 2e-4 * w + 1e-6;    // sums of positive terms: the error is relative
      if (!(std::fabs(got[v] - w) <= tol)) sim::violation("centrality", "%s: score of %u is %.7g, should be %.7g", names[ver], v, got[v], w);
    }
  };
  auto run = [=]<bool Plain>(const auto& g) {
    std::vector<vertex_id_t<std::remove_cvref_t<decltype(g)>>> from(src.begin(), src.end());
    using G = std::remove_cvref_t<decltype(g)>;
    if constexpr (!std::is_same_v<G, adjacency<0>>) {    // one choice of types each
      if constexpr (std::is_same_v<vertex_id_t<G>, u16>) *rf = call<float, std::size_t, Plain>(ver, g, from, threads, pol, norm);
      else if constexpr (std::is_same_v<vertex_id_t<G>, u64>) *rd = call<double, double, Plain>(ver, g, from, threads, pol, norm);
      else *rf = call<float, double, Plain>(ver, g, from, threads, pol, norm);
    } else if (acc == 0) *rf = call<float, double, Plain>(ver, g, from, threads, pol, norm);
    else if (acc == 1) *rf = call<float, std::size_t, Plain>(ver, g, from, threads, pol, norm);
    else *rd = call<double, double, Plain>(ver, g, from, threads, pol, norm);
  };
  const Csr& cg = directed ? x.d_out : x.s_out;
  auto on = [&](auto plain, auto held) {
    return job(names[ver], [=] { run.template operator()<plain.value>(*held); }, [=, &cg] { check(); same_rows(types[ty], *held, cg); });
  };
  auto mk = [&]<class G>() { return std::make_shared<G>(Make<G>::make(cg)); };
  using std::true_type; using std::false_type;
  switch (ty) {
    case 1: return on(false_type{}, mk.operator()<adjacency<0, int>>());
    case 2: return on(false_type{}, mk.operator()<index_adjacency<0, u64, u64>>());
    case 3: return on(false_type{}, mk.operator()<index_adjacency<0, u16, u16>>());
    case 4: return on(true_type{}, mk.operator()<vov<0>>());
  }
  return job(names[ver], [=, &x] { run.template operator()<false>(directed ? x.A : x.S); }, check);
}
