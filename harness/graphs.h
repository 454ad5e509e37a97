// Workload graphs and sequential reference computations for the harnesses.
// Everything here runs outside the simulation (no scheduling points).
#pragma once
#include "../sim/sim.h"
#include <algorithm>
#include <cstdint>
#include <functional>
#include <numeric>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace h {
using u32 = std::uint32_t;
using u64 = std::uint64_t;
constexpr u32 NONE = 0xffffffffu;

struct Arc { u32 u, v, w; };
struct Gr {
  u32              n = 0;
  std::vector<Arc> e;          // as listed
  const char*      shape = "";
  bool             deep  = false;   // a path of more than 2^16 vertices
};

// which read or write call fails: few are made unless transfers are shortened
inline std::int64_t a_read(bool shortened) {
  static const std::int64_t upto[] = {4, 12, 60};
  return (std::int64_t)sim::flt((u64)upto[shortened ? sim::flt(3) : 0]);
}
struct GenOpts {
  u32  small = 12, medium = 60, large = 260;
  bool loops = true, multi = true, isolated = true;
  u32  maxw = 1;
  u32  min_n = 1;
  u32  max_deg_factor = 6;
  bool uniform_weights = false;
  int  huge = 0;              // now and then a graph with about a thousand vertices (1), or over 2^16 as well (2), or a path longer than that (3)
  bool low_degrees = false;
};

inline void add(Gr& g, u32 u, u32 v, const GenOpts& o) {
  if (!o.loops && u == v) return;
  g.e.push_back({u, v, o.maxw <= 1 ? 1u : (u32)sim::wl(o.maxw + 1)});
}
#ifndef HUGE_ODDS
#define HUGE_ODDS 6000
#endif
inline Gr gen_graph(const GenOpts& o = {}) {
  Gr  g;
  u32 cls = (u32)sim::wl(10);
  u32 hi  = cls < 5 ? o.small : cls < 9 ? o.medium : o.large;
  u32 n   = o.min_n + (u32)sim::wl(hi - o.min_n + 1);
  g.n     = n;
  static const char* names[] = {"random", "path", "star", "grid", "layers", "cliques", "skewed", "tree", "dense", "cycle", "two-parts"};
  u32 sh  = (u32)sim::wl(11);
  if (o.huge) {
    u64 r = sim::wl(HUGE_ODDS);
    if (r >= HUGE_ODDS - 10) {
      static const u32 wide[] = {0, 2, 5, 6, 7, 10};   // few levels, few edges
      g.n = n = r == HUGE_ODDS - 1 && o.huge > 1 ? 65500 + (u32)sim::wl(3000) : 900 + (u32)sim::wl(2500);
      sh = wide[sim::wl(6)];
      if (o.low_degrees && n > 65000 && (sh == 2 || sh == 6)) sh = 7;
      sim::scale_budget(n > 65000 ? 20 : 4);
      sim::probe(n > 65000 ? "over 65000 vertices" : "over 900 vertices");
    } else if (r >= HUGE_ODDS - 18) {   // many levels
      static const u32 deep[] = {1, 3, 9};
      bool longest = r >= HUGE_ODDS - 12 && o.huge > 2;
      g.n = n = longest ? 65540 + (u32)sim::wl(1000) : 260 + (u32)sim::wl(1000);
      g.deep = longest;
      sh = longest ? 1 : deep[sim::wl(3)];
      sim::scale_budget(longest ? 40 : 10);
      sim::probe(longest ? "over 65000 levels" : "over 250 levels or vertices");
    }
  }
  g.shape = names[sh];
  auto R  = [&](u32 k) { return (u32)sim::wl(k); };
  switch (sh) {
    case 0: {
      u32 m = R(n * 3 + 2);
      for (u32 i = 0; i < m; i++) { u32 a = R(n), b = R(n); add(g, a, b, o); }
    } break;
    case 1:
      for (u32 i = 0; i + 1 < n; i++) add(g, i, i + 1, o);
      break;
    case 2: {
      u32 c = 1 + R(3);
      for (u32 i = 0; i < n; i++)
        if (i >= c) add(g, i % c, i, o);
      for (u32 i = 0; i + 1 < c && i + 1 < n; i++) add(g, i, i + 1, o);
    } break;
    case 3: {
      u32 w = 1;
      while ((w + 1) * (w + 1) <= n) w++;
      for (u32 i = 0; i < n; i++) {
        if (i % w + 1 < w && i + 1 < n) add(g, i, i + 1, o);
        if (i + w < n) add(g, i, i + w, o);
      }
    } break;
    case 4: {   // layers, completely joined: many parents compete for every child
      u32 k = 1 + R(n < 8 ? n : 8);
      for (u32 i = 0; i < n; i++)
        for (u32 j = 0; j < n; j++)
          if (j / k == i / k + 1) add(g, i, j, o);
    } break;
    case 5: {
      u32 k = 2 + R(5);
      for (u32 i = 0; i < n; i++)
        for (u32 j = i / k * k; j < n && j < i / k * k + k; j++)
          if (i < j) add(g, i, j, o);
      for (u32 c = k; c < n; c += k)
        if (R(4)) add(g, c, R(c), o);
    } break;
    case 6:   // a few vertices get most of the edges
      for (u32 i = 1; i < n; i++) {
        u32 d = 1 + R(3);
        for (u32 k = 0; k < d; k++) { u32 t = R(i); for (int s = 0; s < 2; s++) t = R(t + 1); if (R(2)) add(g, i, t, o); else add(g, t, i, o); }
      }
      break;
    case 7:
      for (u32 i = 1; i < n; i++) add(g, (i - 1) / 2, i, o);
      break;
    case 8: {
      u32 k = n < 24 ? n : 24;
      g.n = n = k;
      for (u32 i = 0; i < k; i++)
        for (u32 j = 0; j < k; j++)
          if (R(3)) add(g, i, j, o);
    } break;
    case 9:
      for (u32 i = 0; i < n; i++) add(g, i, (i + 1) % n, o);
      break;
    default: {
      u32 h2 = n / 2 ? n / 2 : 1;
      u32 m = R(n * 2 + 2);
      for (u32 i = 0; i < m; i++) {
        bool second = R(2) && h2 < n;
        u32 a = second ? h2 + R(n - h2) : R(h2), b = second ? h2 + R(n - h2) : R(h2);
        add(g, a, b, o);
      }
    }
  }
  if (o.loops && sim::wlp(20)) { u32 k = 1 + R(3); for (u32 i = 0; i < k; i++) { u32 a = R(n); add(g, a, a, o); } }
  if (o.multi && !g.e.empty() && sim::wlp(30)) { u32 k = 1 + R(4); for (u32 i = 0; i < k; i++) { Arc a = g.e[R((u32)g.e.size())]; add(g, a.u, a.v, o); } }
  if (!o.multi) {
    std::set<std::pair<u32, u32>> s;
    std::vector<Arc> t;
    for (auto& a : g.e) if (s.insert({a.u, a.v}).second) t.push_back(a);
    g.e = t;
  }
  if (sim::wlp(50)) {   // scramble the labels
    std::vector<u32> p(n);
    std::iota(p.begin(), p.end(), 0u);
    for (u32 i = n; i > 1; i--) std::swap(p[i - 1], p[R(i)]);
    for (auto& a : g.e) { a.u = p[a.u]; a.v = p[a.v]; }
  }
  if (o.isolated && sim::wlp(25)) g.n += 1 + R(4);
  return g;
}
inline Gr symmetrise(const Gr& g, bool dedup, bool loops) {
  Gr r;
  r.n = g.n;
  r.shape = g.shape;
  std::set<std::pair<u32, u32>> s;
  for (auto& a : g.e) {
    if (a.u == a.v && !loops) continue;
    if (!dedup) {
      r.e.push_back(a);
      if (a.u != a.v) r.e.push_back({a.v, a.u, a.w});
      continue;
    }
    if (s.insert({a.u, a.v}).second) r.e.push_back(a);
    if (s.insert({a.v, a.u}).second) r.e.push_back({a.v, a.u, a.w});
  }
  return r;
}

struct Csr {
  std::vector<u32> idx, to, w;
};
inline Csr csr(const Gr& g, bool transpose, bool sorted) {
  Csr c;
  c.idx.assign(g.n + 1, 0);
  for (auto& a : g.e) c.idx[(transpose ? a.v : a.u) + 1]++;
  for (u32 i = 0; i < g.n; i++) c.idx[i + 1] += c.idx[i];
  std::vector<u32> at(c.idx.begin(), c.idx.end() - 1);
  c.to.resize(g.e.size());
  c.w.resize(g.e.size());
  for (auto& a : g.e) {
    u32 s = transpose ? a.v : a.u, t = transpose ? a.u : a.v;
    c.to[at[s]]  = t;
    c.w[at[s]++] = a.w;
  }
  if (sorted)
    for (u32 i = 0; i < g.n; i++) {
      std::vector<std::pair<u32, u32>> r;
      for (u32 k = c.idx[i]; k < c.idx[i + 1]; k++) r.push_back({c.to[k], c.w[k]});
      std::sort(r.begin(), r.end());
      for (u32 k = 0; k < r.size(); k++) { c.to[c.idx[i] + k] = r[k].first; c.w[c.idx[i] + k] = r[k].second; }
    }
  return c;
}
inline void note_graph(const Gr& g, bool weights = false) {
  std::string s = "graph: " + std::to_string(g.n) + " vertices, " + std::to_string(g.e.size()) + " arcs, shape " + g.shape + ":";
  std::size_t k = 0;
  for (auto& a : g.e) {
    if (k++ == 120) { s += " ..."; break; }
    s += " " + std::to_string(a.u) + ">" + std::to_string(a.v);
    if (weights) s += ":" + std::to_string(a.w);
  }
  sim::note("%s", s.c_str());
}
inline std::string show(const std::vector<u32>& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size() && i < 60; i++) s += (i ? " " : "") + (v[i] == NONE ? std::string("-") : std::to_string(v[i]));
  return s + (v.size() > 60 ? " ...]" : "]");
}

inline std::vector<u32> bfs_depth(const Csr& c, u32 root) {
  std::vector<u32> d(c.idx.size() - 1, NONE), q{root};
  d[root] = 0;
  for (std::size_t i = 0; i < q.size(); i++)
    for (u32 k = c.idx[q[i]]; k < c.idx[q[i] + 1]; k++)
      if (d[c.to[k]] == NONE) { d[c.to[k]] = d[q[i]] + 1; q.push_back(c.to[k]); }
  return d;
}
struct Dsu {
  std::vector<u32> p;
  explicit Dsu(u32 n) : p(n) { std::iota(p.begin(), p.end(), 0u); }
  u32  find(u32 x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
  void join(u32 a, u32 b) { p[find(a)] = find(b); }
};
}  // namespace h
