// Sequential algorithms called by several callers at once on shared graphs, with allocations that may fail: each call
// gives the exact result for its own arguments or throws, and the graphs stay as they were.
#include "callers.h"
#include "nwgraph/algorithms/dag_based_mis.hpp"
#include "nwgraph/algorithms/dijkstra.hpp"
#include "nwgraph/algorithms/jaccard.hpp"
#include "nwgraph/algorithms/kruskal.hpp"
#include "nwgraph/algorithms/maximal_independent_set.hpp"
#include "nwgraph/algorithms/prim.hpp"
#include "nwgraph/algorithms/spMatspMat.hpp"
#include <map>
#include <queue>
using namespace h;
namespace {
struct Ctx {
  GraphCtx          x;
  Gr                ws;     // symmetric, simple, both directions of an edge with one weight
  Csr               wsc;
  adjacency<0, int> WS;
};
void make(Ctx& c, const GenOpts& o) {
  make_ctx(c.x, o, true);
  std::map<std::pair<u32, u32>, u32> w;
  c.ws = c.x.sym;
  for (auto& a : c.ws.e) {
    auto k = std::minmax(a.u, a.v);
    a.w = w.try_emplace({k.first, k.second}, a.w).first->second;
  }
  c.wsc = csr(c.ws, false, true);
  c.WS  = to_adjw<0, int>(c.wsc);
}
// how the weight of an edge is read: as it is, all edges alike, as a fraction whose sums are rounded, beyond 32 bits
enum Scale { Plain, Unit, Sevenths, Wide };
template <class D>
D scaled(Scale s, u32 w, u32 unit) { return s == Unit ? (D)unit : s == Sevenths ? (D)((D)w / 7) : s == Wide ? (D)((D)w * (D)(1ull << 33)) : (D)w; }
// distances in the arithmetic of D; where sums are rounded, rounding is monotone and the least rounded sum is what relaxation ends at
template <class D>
std::vector<D> dijkstra_ref(const Csr& c, u32 root, Scale s, u32 unit) {
  std::vector<D> d(c.idx.size() - 1, std::numeric_limits<D>::max());
  std::priority_queue<std::pair<D, u32>, std::vector<std::pair<D, u32>>, std::greater<>> q;
  d[root] = 0;
  q.push({0, root});
  while (!q.empty()) {
    auto [x, u] = q.top();
    q.pop();
    if (x != d[u]) continue;
    for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) {
      D y = x + scaled<D>(s, c.w[k], unit);
      if (y < d[c.to[k]]) { d[c.to[k]] = y; q.push({y, c.to[k]}); }
    }
  }
  return d;
}
template <class D>
JobP mk_dijkstra_(Ctx& c, const char* ty) {
  u32   root = (u32)sim::wl(c.x.dir.n), unit = 1 + (u32)sim::wl(3);
  bool  sym  = sim::wlp(30), held = false;
  Scale s    = (Scale)sim::wl(4);
  if (s == Wide && !(std::is_same_v<D, u64> || std::is_same_v<D, double>)) s = Unit;
  if (s == Sevenths) {
    if constexpr (std::is_floating_point_v<D>) held = std::is_same_v<D, double> && sim::wlp(50);
    else s = Plain;
  }
  static const char* how[] = {"", ", unit weights", ", a seventh of each weight", ", weights beyond 32 bits"};
  sim::note("dijkstra<%s> from %u%s%s%s", ty, root, how[s], held ? ", held by the graph" : "", sym ? ", symmetric graph" : "");
  auto r = std::make_shared<std::vector<D>>();
  std::shared_ptr<adjacency<0, double>> own;
  if (held) {
    Csr q = sym ? c.wsc : c.x.d_out;
    own = std::make_shared<adjacency<0, double>>(to_adjw<0, double>(q));
    for (auto&& row : *own) for (auto&& e : row) std::get<1>(e) /= 7;
  }
  return job("dijkstra", [=, &c] {
      auto& g = sym ? c.WS : c.x.WA;
      if constexpr (std::is_same_v<D, double>) if (held) { *r = dijkstra<D>(*own, root); return; }
      if (s == Plain) *r = dijkstra<D>(g, root);
      else if (s == Unit) *r = dijkstra<D>(g, root, [unit](auto&&) { return (int)unit; });
      else *r = dijkstra<D>(g, root, [s](auto&& e) { return scaled<D>(s, (u32)std::get<1>(e), 0); });
    }, [=, &c] {
      auto d = dijkstra_ref<D>(sym ? c.wsc : c.x.d_out, root, s, unit);
      if (r->size() != d.size()) sim::violation("distance", "dijkstra: %zu distances for %zu vertices", r->size(), d.size());
      for (u32 v = 0; v < d.size(); v++)
        if ((*r)[v] != d[v]) sim::violation("distance", "dijkstra<%s> from %u: distance of %u is %.17g, the shortest path has length %.17g%s", ty, root, v, (double)(*r)[v], (double)d[v], d[v] == std::numeric_limits<D>::max() ? " (unreachable)" : "");
    });
}
JobP mk_dijkstra(Ctx& c) {
  switch (sim::wl(5)) {
    case 0: return mk_dijkstra_<std::uint64_t>(c, "uint64");
    case 1: return mk_dijkstra_<int>(c, "int");
    case 2: return mk_dijkstra_<float>(c, "float");
    case 3: return mk_dijkstra_<double>(c, "double");
  }
  return mk_dijkstra_<std::uint32_t>(c, "uint32");
}
JobP mk_mis(Ctx& c) {
  bool dag = sim::wlp(40);
  sim::note(dag ? "dag_based_mis" : "maximal_independent_set");
  auto r = std::make_shared<std::vector<std::size_t>>();
  auto b = std::make_shared<std::vector<bool>>();
  return job("maximal_independent_set", [=, &c] {
      r->clear();
      if (!dag) return maximal_independent_set(c.x.S, *r);
      b->assign(c.x.dir.n, true);   // as it wants to be given it
      dag_based_mis(c.x.S, *b);
    }, [=, &c] {
      if (dag) {
        if (b->size() != c.x.dir.n) sim::violation("independent-set", "dag_based_mis: %zu marks for %u vertices", b->size(), c.x.dir.n);
        r->clear();
        for (u32 v = 0; v < c.x.dir.n; v++) if ((*b)[v]) r->push_back(v);
      }
      const Csr& g = c.x.s_out;
      u32        n = (u32)g.idx.size() - 1;
      std::vector<char> in(n, 0);
      for (auto v : *r) {
        if (v >= n || in[v]) sim::violation("independent-set", "vertex %zu is listed %s", v, v >= n ? "but does not exist" : "twice");
        in[v] = 1;
      }
      for (u32 u = 0; u < n; u++) {
        bool near = false;
        for (u32 k = g.idx[u]; k < g.idx[u + 1]; k++) near |= g.to[k] != u && in[g.to[k]];
        if (in[u] && near) sim::violation("independent-set", "vertex %u is in the set together with a neighbour", u);
        if (!in[u] && !near) sim::violation("independent-set", "vertex %u could be added to the set", u);
      }
    });
}
struct MinI { long operator()(long a, long b) const { return a < b ? a : b; } };
JobP mk_spmm(Ctx& c) {
  int  kind = (int)sim::wl(6);   // A*B, A*B by max-like semiring, A*B', mixed operands, entries that are fractions or large
  static const char* nm[] = {"spMatspMat", "spMatspMat over (min, +)", "spMatspMatT", "spMatspMat of two graphs", "spMatspMat of eighths", "spMatspMatT of large entries"};
  sim::note("%s", nm[kind]);
  std::shared_ptr<adjacency<0, double>> D;
  std::shared_ptr<adjacency<0, u64>>    L;
  if (kind == 4) { D = std::make_shared<adjacency<0, double>>(to_adjw<0, double>(c.x.d_out)); for (auto&& row : *D) for (auto&& e : row) std::get<1>(e) /= 8; }
  if (kind == 5) { L = std::make_shared<adjacency<0, u64>>(to_adjw<0, u64>(c.wsc)); for (auto&& row : *L) for (auto&& e : row) std::get<1>(e) <<= 18; }
  auto r = std::make_shared<std::vector<std::tuple<u32, u32, long>>>();
  return job(nm[kind], [=, &c] {
      r->clear();
      auto take = [&](auto&& el) { for (auto&& e : el) r->push_back({std::get<0>(e), std::get<1>(e), (long)std::get<2>(e)}); };
      if (kind == 0) take(spMatspMat<double>(c.x.WA, c.x.WA));
      else if (kind == 1) take(spMatspMat<long, adjacency<0, int>, adjacency<0, int>, std::plus<long>, MinI>(c.x.WA, c.x.WA));
      else if (kind == 2) take(spMatspMatT<long>(c.WS, c.WS));
      else if (kind == 3) take(spMatspMat<long>(c.x.WA, c.WS));
      else if (kind == 4) for (auto&& e : spMatspMat<double>(*D, *D)) {
        double y = 64 * std::get<2>(e);
        if (y != (long)y) sim::violation("product", "%s: %g is not a sum of products of eighths", nm[kind], y / 64);
        r->push_back({std::get<0>(e), std::get<1>(e), (long)y});
      }
      else for (auto&& e : spMatspMatT<u64>(*L, *L)) {
        u64 y = std::get<2>(e);
        if (y & ((1ull << 36) - 1)) sim::violation("product", "%s: %llu is not a sum of the products", nm[kind], (unsigned long long)y);
        r->push_back({std::get<0>(e), std::get<1>(e), (long)(y >> 36)});
      }
    }, [=, &c] {
      const Csr& A = kind == 2 || kind == 5 ? c.wsc : c.x.d_out;
      const Csr& B = kind == 0 || kind == 1 || kind == 4 ? c.x.d_out : c.wsc;
      std::map<std::pair<u32, u32>, long> want;
      u32 n = (u32)A.idx.size() - 1;
      for (u32 i = 0; i < n; i++)
        for (u32 p = A.idx[i]; p < A.idx[i + 1]; p++)
          for (u32 k = A.to[p], q = B.idx[k]; q < B.idx[k + 1]; q++) {
            long y = kind == 1 ? (long)A.w[p] + B.w[q] : (long)A.w[p] * B.w[q];
            auto [it, fresh] = want.try_emplace({i, B.to[q]}, y);
            if (!fresh) it->second = kind == 1 ? std::min(it->second, y) : it->second + y;
          }
      if (r->size() != want.size()) sim::violation("product", "%s: %zu entries, the product has %zu", nm[kind], r->size(), want.size());
      std::map<std::pair<u32, u32>, long> got;
      for (auto& [i, j, y] : *r) {
        auto it = want.find({i, j});
        if (it == want.end() || it->second != y) sim::violation("product", "%s: entry (%u,%u) is %ld, should be %s", nm[kind], i, j, y, it == want.end() ? "absent" : std::to_string(it->second).c_str());
        if (!got.insert({{i, j}, y}).second) sim::violation("product", "%s: entry (%u,%u) is there twice", nm[kind], i, j);
      }
    });
}
JobP mk_jaccard(Ctx& c) {
  sim::note("jaccard_similarity");
  auto g   = std::make_shared<adjacency<0, double>>(to_adjw<0, double>(c.wsc));   // it writes into its own graph
  auto ctr = std::make_shared<std::size_t>(0);
  return job("jaccard_similarity", [=] { *ctr = jaccard_similarity(*g, [](auto&& e) -> auto& { return std::get<1>(e); }); }, [=, &c] {
      const Csr&  a = c.wsc;
      std::size_t pairs = 0;
      u32         u = 0;
      for (auto&& row : *g) {
        u32 k = a.idx[u];
        for (auto&& e : row) {
          u32 v = std::get<0>(e);
          if (k >= a.idx[u + 1] || v != a.to[k]) sim::violation("graph-changed", "jaccard_similarity: vertex %u has another neighbour", u);
          double want = a.w[k];
          if (u < v) {
            pairs++;
            u32 both = 0;
            for (u32 p = a.idx[u]; p < a.idx[u + 1]; p++) for (u32 q = a.idx[v]; q < a.idx[v + 1]; q++) both += a.to[p] == a.to[q];
            want = (double)both / (double)(a.idx[u + 1] - a.idx[u] + a.idx[v + 1] - a.idx[v] - both);
          }
          if (std::get<1>(e) != want) sim::violation("similarity", "jaccard_similarity: edge (%u,%u) holds %g, should be %g", u, v, (double)std::get<1>(e), want);
          k++;
        }
        u++;
      }
      if (*ctr != pairs) sim::violation("similarity", "jaccard_similarity counted %zu pairs of neighbours, there are %zu", *ctr, pairs);
    });
}
// weight of a lightest (or heaviest) spanning forest of the arcs, and the number of its edges
std::pair<u64, u32> forest(const Gr& g, bool heavy, u32 only = NONE) {
  std::vector<Arc> e = g.e;
  std::sort(e.begin(), e.end(), [&](const Arc& a, const Arc& b) { return heavy ? a.w > b.w : a.w < b.w; });
  Dsu all(g.n), d(g.n);
  for (auto& a : e) all.join(a.u, a.v);
  u64 s = 0;
  u32 k = 0;
  for (auto& a : e)
    if (d.find(a.u) != d.find(a.v) && (only == NONE || all.find(a.u) == all.find(only))) { d.join(a.u, a.v); s += a.w; k++; }
  return {s, k};
}
template <class W>
JobP mk_kruskal_(Ctx& c, bool heavy, bool cmp, Scale sc = Plain) {
  using EL = edge_list<directedness::undirected, W>;
  auto E = std::make_shared<EL>(sim::wlp(50) ? c.x.dir.n : 0);   // it sorts the list it is given
  auto T = std::make_shared<EL>(0);
  E->open_for_push_back();
  for (auto& a : c.x.dir.e) E->push_back(a.u, a.v, scaled<W>(sc, a.w, 0));
  E->close_for_push_back();
  u32 n0 = (u32)E->num_vertices()[0];
  return job("kruskal", [=] {
      *T = EL(0);
      if (!cmp) *T = kruskal(*E);
      else if (heavy) *T = kruskal(*E, [](auto&& a, auto&& b) { return std::get<2>(a) > std::get<2>(b); });
      else *T = kruskal(*E, [](auto&& a, auto&& b) { return std::get<2>(a) < std::get<2>(b); });
    }, [=, &c] {
      std::multiset<std::tuple<u32, u32, W>> want, got;
      std::map<W, u32> back;   // the weights as they were drawn
      for (auto& a : c.x.dir.e) { want.insert({a.u, a.v, scaled<W>(sc, a.w, 0)}); back[scaled<W>(sc, a.w, 0)] = a.w; }
      for (auto&& e : *E) got.insert({std::get<0>(e), std::get<1>(e), std::get<2>(e)});
      if (want != got || E->num_vertices()[0] != n0) sim::violation("graph-changed", "kruskal: the edge list holds other edges than before");
      Dsu    d(c.x.dir.n);
      u64    s = 0;
      u32    k = 0;
      for (auto&& e : *T) {
        auto it = got.find({std::get<0>(e), std::get<1>(e), std::get<2>(e)});
        if (it == got.end()) sim::violation("spanning-tree", "kruskal: edge (%u,%u,%g) of the tree is not in the list", (u32)std::get<0>(e), (u32)std::get<1>(e), (double)std::get<2>(e));
        got.erase(it);
        if (d.find(std::get<0>(e)) == d.find(std::get<1>(e))) sim::violation("spanning-tree", "kruskal: edge (%u,%u) closes a cycle", (u32)std::get<0>(e), (u32)std::get<1>(e));
        d.join(std::get<0>(e), std::get<1>(e));
        s += back[std::get<2>(e)];
        k++;
      }
      auto f = forest(c.x.dir, heavy);
      if (k != f.second) sim::violation("spanning-tree", "kruskal: %u edges, a spanning forest has %u", k, f.second);
      if (s != f.first) sim::violation("spanning-tree", "kruskal: weight %llu, the %s spanning forest has %llu (weights as drawn)", (unsigned long long)s, heavy ? "heaviest" : "lightest", (unsigned long long)f.first);
    });
}
JobP mk_kruskal(Ctx& c) {
  bool cmp = sim::wlp(60), heavy = cmp && sim::wlp(50);
  static const char* how[] = {"int", "double", "double, a seventh of each", "uint64, beyond 32 bits", "float, a seventh of each"};
  int t = (int)sim::wl(5);
  sim::note("kruskal, %s, weights %s", heavy ? "heaviest first" : cmp ? "lightest first" : "default order", how[t]);
  switch (t) {
    case 1: return mk_kruskal_<double>(c, heavy, cmp);
    case 2: return mk_kruskal_<double>(c, heavy, cmp, Sevenths);
    case 3: return mk_kruskal_<u64>(c, heavy, cmp, Wide);
    case 4: return mk_kruskal_<float>(c, heavy, cmp, Sevenths);
  }
  return mk_kruskal_<int>(c, heavy, cmp);
}
JobP mk_prim(Ctx& c) {
  u32 root = (u32)sim::wl(c.ws.n);
  int ty   = (int)sim::wl(6);
  static const char* how[] = {"double", "int", "uint64", "double, a seventh of each", "uint64, beyond 32 bits", "float, a seventh of each"};
  sim::note("prim from %u, weights %s", root, how[ty]);
  auto r = std::make_shared<std::vector<u32>>();
  return job("prim", [=, &c] {
      r->clear();
      auto w = [](auto&& e) { return std::get<1>(e); };
      using G = adjacency<0, int>;
      auto p = ty == 3 ? prim<G, double>(c.WS, root, [](auto&& e) { return std::get<1>(e) / 7.0; })
             : ty == 4 ? prim<G, std::uint64_t>(c.WS, root, [](auto&& e) { return (u64)std::get<1>(e) << 33; })
             : ty == 5 ? prim<G, float>(c.WS, root, [](auto&& e) { return (float)std::get<1>(e) / 7; })
             : ty == 0 ? prim<adjacency<0, int>, double>(c.WS, root, w) : ty == 1 ? prim<adjacency<0, int>, int>(c.WS, root, w) : prim<adjacency<0, int>, std::uint64_t>(c.WS, root, w);
      r->assign(p.begin(), p.end());
    }, [=, &c] {
      const Csr& g = c.wsc;
      u32        n = c.ws.n;
      auto       d = bfs_depth(g, root);
      if (r->size() != n) sim::violation("spanning-tree", "prim: %zu entries for %u vertices", r->size(), n);
      Dsu    f(n);
      u64        s = 0;
      for (u32 v = 0; v < n; v++) {
        u32 p = (*r)[v];
        if (v == root || d[v] == NONE) {
          if (p != NONE && p != v) sim::violation("spanning-tree", "prim from %u: vertex %u, %s, has predecessor %u", root, v, v == root ? "the source" : "unreachable", p);
          continue;
        }
        long w = -1;
        if (p < n) for (u32 k = g.idx[p]; k < g.idx[p + 1]; k++) if (g.to[k] == v) w = g.w[k];
        if (w < 0) sim::violation("spanning-tree", "prim from %u: predecessor %d of vertex %u is not a neighbour of it", root, (int)p, v);
        if (f.find(p) == f.find(v)) sim::violation("spanning-tree", "prim from %u: the edge of vertex %u closes a cycle", root, v);
        f.join(p, v);
        s += (u64)w;
      }
      auto want = forest(c.ws, false, root);
      if (s != want.first) sim::violation("spanning-tree", "prim from %u: weight %llu, the lightest spanning tree has %llu (weights as drawn)", root, (unsigned long long)s, (unsigned long long)want.first);
    });
}
void scenario(int tier) {
  GenOpts o;
  o.small = 9; o.medium = 24; o.large = tier ? 60 : 36;
  if (sim::wl(150) == 149) { o.large = 500; sim::scale_budget(4); }
  static const u32 mw[] = {1, 3, 20, 200};
  o.maxw = mw[sim::wl(4)];
  Ctx c;
  make(c, o);
  note_graph(c.x.dir, true);
  std::uint64_t before = sim::live_blocks();
  {
    using Make = JobP (*)(Ctx&);
    static const Make makes[] = {mk_dijkstra, mk_dijkstra, mk_mis, mk_spmm, mk_spmm, mk_jaccard, mk_kruskal, mk_prim};
    u32 nt = 1 + (u32)sim::wl(4), rounds = 1 + (u32)sim::wl(2);
    int same = sim::wlp(50) ? (int)sim::wl(8) : -1;   // all callers run one algorithm
    Callers all;
    all.jobs.resize(nt);
    for (u32 t = 0; t < nt; t++)
      for (u32 r = 0; r < rounds; r++) {
        sim::note("caller %u:", t);
        all.jobs[t].push_back(makes[same >= 0 ? same : (int)sim::wl(8)](c));
      }
    all.run(Callers::draw_failure(), [&] { ctx_unchanged(c.x); same_graph<true>("weighted symmetric", c.WS, c.wsc); });
    if ((all.overlap && c.x.dir.e.size() >= 3 && sim::preemptions() >= 3) || all.fired) sim::mark_nontrivial();
  }
  no_leak(before);
}
}
const PropertyDef g_properties[] = {{"C27", scenario, "a run counts when calls of at least 2 callers overlapped in time on a graph of at least 3 arcs with at least 3 preemptions, or an injected allocation failure hit a call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
