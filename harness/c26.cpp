// The verifiers: each accepts every result that is right and no result that is not, for several callers at a time.
#include "job.h"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/algorithms/betweenness_centrality.hpp"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/algorithms/delta_stepping.hpp"
#include <cmath>
#include <iostream>
#include <map>
using namespace h;
using Wg = nw::graph::adjacency<0, u32>;
bool drv_sssp_verify(const Wg& g, u32 source, const std::vector<u64>& dist, bool verbose);
namespace {
namespace ex = std::execution;
// what a right result is, by definition
bool tree_right(const Csr& in, const std::vector<u32>& d, u32 s, const std::vector<u32>& p) {
  for (u32 v = 0; v < p.size(); v++) {
    if ((d[v] == NONE) != (p[v] == NONE)) return false;
    if (v == s) { if (p[v] != s) return false; continue; }
    if (d[v] == NONE) continue;
    bool edge = false;
    for (u32 k = in.idx[v]; k < in.idx[v + 1]; k++) edge = edge || in.to[k] == p[v];
    if (!edge || d[p[v]] == NONE || d[p[v]] + 1 != d[v]) return false;
  }
  return true;
}
bool labels_right(const Gr& g, const std::vector<u32>& comp) {
  Dsu d(g.n);
  for (auto& a : g.e) { if (comp[a.u] != comp[a.v]) return false; d.join(a.u, a.v); }
  std::map<u32, u32> root;
  for (u32 v = 0; v < g.n; v++) {
    auto [it, fresh] = root.insert({comp[v], v});
    if (!fresh && d.find(it->second) != d.find(v)) return false;
  }
  return true;
}
std::vector<double> scores_right(const Csr& c, u32 n, const std::vector<u32>& sources) {
  std::vector<double> bc(n, 0.0);
  for (u32 s : sources) {
    auto d = bfs_depth(c, s);
    std::vector<double> sigma(n, 0.0), delta(n, 0.0);
    std::vector<u32> order;
    for (u32 v = 0; v < n; v++) if (d[v] != NONE) order.push_back(v);
    std::sort(order.begin(), order.end(), [&](u32 a, u32 b) { return d[a] < d[b]; });
    sigma[s] = 1;
    for (u32 u : order)
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) if (d[c.to[k]] == d[u] + 1) sigma[c.to[k]] += sigma[u];
    for (auto it = order.rbegin(); it != order.rend(); ++it) {
      u32 u = *it;
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) if (d[c.to[k]] == d[u] + 1) delta[u] += sigma[u] / sigma[c.to[k]] * (1 + delta[c.to[k]]);
      bc[u] += delta[u];
    }
  }
  return bc;
}
struct Client {
  int  what = 0, damage = 0, ver = 0;
  u32  src = 0, rounds = 2;
  bool directed = false, norm = false, verbose = false, self = false;
  std::vector<u32> srcs;
  std::vector<std::array<u64, 3>> hits;   // which places of the result are overwritten, how
  std::string log;
};
const char* names[] = {"BFSVerifier", "CCVerifier", "BCVerifier<double, double>", "BCVerifier<double, size_t>", "BCVerifier<float, double>", "BCVerifier<float, size_t>", "SSSPVerifier"};
[[noreturn]] void wrong(const Client& k, const char* which, bool right) {
  sim::Quiet q;
  sim::violation("verifier", "%s: %s a result that is %s (%s)", names[k.what], right ? "rejects" : "accepts", right ? "right" : "wrong", which);
}
// overwrites an entry with another, an entry with a vertex or with the mark for "none"
void hit(std::vector<u32>& p, const std::array<u64, 3>& f) {
  u32 n = (u32)p.size(), v = (u32)(f[0] % n), x = (u32)(f[1] % n);
  switch (f[2] % 6) {
    case 0: p[v] = p[x]; break;
    case 1: p[v] = x; break;
    case 2: p[v] = NONE; break;
    case 3: p[v] = v; break;
    case 4: std::swap(p[v], p[x]); break;
    default: p[v] = p[v] == NONE ? 0 : p[v] + 1;
  }
}
template <class S, class A>
void bc(GraphCtx& x, const Client& k) {
  const auto& g = k.directed ? x.A : x.S;
  const Csr&  c = k.directed ? x.d_out : x.s_out;
  auto src = k.srcs;
  bool exact = sizeof(S) == 8;     // a float is good for six or seven digits only, the tolerance is 1e-6
  std::vector<S> s = k.ver == 0 ? nw::graph::brandes_bc<S, A>(g, src, 1 + (int)k.rounds, ex::par_unseq, ex::par_unseq, k.norm)
                                : std::vector<S>();
  std::vector<double> want;
  double mx = 0;
  {
    sim::Quiet q;
    want = scores_right(c, x.dir.n, src);
    mx = *std::max_element(want.begin(), want.end());
    if (k.norm && mx > 0) for (auto& w : want) w /= mx;
    if (k.ver) for (auto w : want) s.push_back((S)w);
  }
  if (k.norm && mx == 0) return;
  bool right = true;
  {
    sim::Quiet q;
    for (auto& f : k.hits) {
      u32 v = (u32)(f[0] % s.size());
      static const double by[] = {1e-4, 0.01, 0.3, 0.9, 1, 1000, 1e-9};
      double d = by[f[2] % 7];
      if (!exact) d = std::max(d, 0.01) * (k.norm ? 1 : std::max(1.0, mx));
      if (d < 1e-6 && std::abs((S)(s[v] + d) - want[v]) > 5e-7) continue;
      s[v] = (S)(f[1] % 2 ? s[v] - d : s[v] + d);
      if (f[1] % 5 == 4) s[v] = (S)d;
    }
    for (u32 v = 0; v < s.size(); v++) {
      double off = std::fabs((double)s[v] - want[v]);
      double lo = exact ? 5e-7 : 0, hi = exact ? 2e-6 : 5e-3 * (k.norm ? 1 : std::max(1.0, mx));
      if (off > hi) right = false;
      else if (off > lo && exact) { sim::probe("too close to tell"); return; }
    }
    if (right && !exact) return;
    if (!right) sim::probe("wrong result");
  }
  bool ok = nw::graph::BCVerifier<S, A>(g, src, s, k.norm);
  if (ok != right) wrong(k, k.directed ? "directed graph" : "symmetric graph", right);
}
void client(GraphCtx& x, const Gr& dir, const Wg& wg, Client& k) {
  u32 n = x.dir.n;
  switch (k.what) {
    case 0: {
      const auto& g = k.directed ? x.A : x.S;
      auto&       t = k.directed ? x.T : x.ST;
      std::vector<u32> p = k.ver ? nw::graph::bfs(g, k.src) : nw::graph::bfs(g, t, k.src);
      bool right;
      {
        sim::Quiet q;
        for (auto& f : k.hits) hit(p, f);
        right = tree_right(k.directed ? x.d_in : x.s_out, bfs_depth(k.directed ? x.d_out : x.s_out, k.src), k.src, p);
        if (!right) sim::probe("wrong result");
      }
      if (nw::graph::BFSVerifier(g, t, k.src, p) != right) wrong(k, k.directed ? "directed graph" : "symmetric graph", right);
    } break;
    case 1: {
      const auto& g = k.directed ? x.A : x.S;
      adjacency<1> none(0);
      const auto& t = k.directed ? x.T : none;
      auto comp = k.ver == 1 ? nw::graph::afforest(ex::seq, g, t, k.rounds) : nw::graph::afforest(ex::par_unseq, g, t, k.rounds);
      std::vector<u32> p(comp.begin(), comp.end());
      bool right;
      {
        sim::Quiet q;
        p.resize(n);
        for (auto& f : k.hits) hit(p, f);
        right = labels_right(k.directed ? x.dir : x.sym, p);
        if (!right) sim::probe("wrong result");
      }
      if (nw::graph::CCVerifier(g, t, p) != right) wrong(k, k.directed ? "directed graph" : "symmetric graph", right);
    } break;
    case 2: bc<double, double>(x, k); break;
    case 3: bc<double, std::size_t>(x, k); break;
    case 4: bc<float, double>(x, k); break;
    case 5: bc<float, std::size_t>(x, k); break;
    default: {
      auto weight = [](auto& e) -> u32 { return std::get<1>(e); };
      auto got = nw::graph::delta_stepping<u64>(wg, k.src, (u64)(1 + k.rounds * 3), weight);
      std::vector<u64> d;
      bool right = true;
      {
        sim::Quiet q;
        for (auto& e : got) d.push_back(e);
        auto want = d;      // what delta_stepping returns is the subject of another property
        for (auto& f : k.hits) {
          u32 v = (u32)(f[0] % n), y = (u32)(f[1] % n);
          switch (f[2] % 4) {
            case 0: d[v] = d[y]; break;
            case 1: d[v]++; break;
            case 2: if (d[v]) d[v]--; break;
            default: std::swap(d[v], d[y]);
          }
        }
        right = d == want;
        if (!right) sim::probe("wrong result");
      }
      if (drv_sssp_verify(wg, k.src, d, k.verbose) != right) wrong(k, "weighted graph", right);
    }
  }
}
void scenario(int tier) {
  GenOpts o;
  o.small = 9; o.medium = 24; o.large = tier ? 120 : 60;
  o.huge = 1;
  static const u32 mw[] = {1, 3, 20, 200};
  o.maxw = mw[sim::wl(4)];
  GraphCtx x;
  make_ctx(x, o, sim::wl(2));
  std::vector<u32> w(x.d_out.w.begin(), x.d_out.w.end());
  Wg wg(x.d_out.idx, x.d_out.to, w);
  note_graph(x.dir, true);
  u32 n = x.dir.n, nc = 1 + (u32)sim::wl(3);
  std::vector<Client> cs(nc);
  for (auto& k : cs) {
    static const int pick[] = {0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 5, 6, 6};
    k.what = pick[sim::wl(13)];
    k.src = (u32)sim::wl(n);
    k.directed = sim::wl(2); k.norm = sim::wl(2); k.ver = (int)sim::wl(3) / 2; k.rounds = (u32)sim::wl(4); k.verbose = sim::wl(2);
    for (u32 i = 0, m = 1 + (u32)sim::wl(3); i < m; i++) k.srcs.push_back((u32)sim::wl(n));
    u32 nh = (u32)sim::flt(3);
    for (u32 i = 0; i < nh; i++) k.hits.push_back({sim::flt(n), sim::flt(n * 10), sim::flt(42)});
    if (nh) sim::fault_fired("result-overwritten");
    sim::note("%s on the %s graph, from %u, %zu sources, version %d, %u entries overwritten", names[k.what], k.directed ? "directed" : "symmetric", k.src, k.srcs.size(), k.ver, nh);
    sim::probe(names[k.what]);
  }
  struct Off : std::streambuf {} none;
  std::streambuf *a = std::cout.rdbuf(&none), *b = std::cerr.rdbuf(&none);
  sim::run([&] {
    std::vector<int> ids;
    for (u32 i = 1; i < nc; i++) ids.push_back(sim::client([&, i] { client(x, x.dir, wg, cs[i]); }));
    client(x, x.dir, wg, cs[0]);
    for (int i : ids) sim::join_client(i);
  });
  std::cout.rdbuf(a); std::cerr.rdbuf(b);
  std::cout.clear(); std::cerr.clear();
  ctx_unchanged(x);
  u32 live = 0;
  for (u32 v = 0; v < n; v++) live += x.s_out.idx[v + 1] > x.s_out.idx[v];
  if (live >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
}  // namespace
const PropertyDef g_properties[] = {{"C26", scenario, "a run counts when at least 3 vertices have a neighbour and at least 2 preemptions happened inside the calls; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
