// Lazy traversals: several of them in progress at once, of one caller and of several, on shared graphs, with
// allocations that may fail. Each one goes over the graph as if it were alone.
#include "job.h"
#include "nwgraph/adaptors/back_edge_range.hpp"
#include "nwgraph/adaptors/bfs_edge_range.hpp"
#include "nwgraph/adaptors/bfs_range.hpp"
#include "nwgraph/adaptors/dag_range.hpp"
#include "nwgraph/adaptors/random_range.hpp"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include <new>
using namespace h;
namespace {
struct Ctx {
  GraphCtx                                               x;
  std::shared_ptr<vov<0, int>>                           V;
  std::shared_ptr<adj_list<0, int>>                      L;
  std::vector<std::vector<std::size_t>>                  pred, succ;   // of an acyclic graph
  std::shared_ptr<adjacency<0>>                          D;            // that graph
  u32                                                    dag_arcs = 0;
};
struct Cursor {
  std::string name;
  virtual void start() = 0;     // a new traversal: makes the range, forgets what was recorded
  virtual bool step()  = 0;     // looks at one item and moves on; false at the end
  virtual void resume() {}      // takes the traversal up again with a new begin()
  virtual void check(bool complete) = 0;
  virtual ~Cursor() {}
};
using CursorP = std::shared_ptr<Cursor>;
template <class G>
struct TopDown : Cursor {
  using R = topdown_bfs_range<G>;
  G& g; const Csr& c; u32 seed, n;
  std::unique_ptr<R> r;
  std::unique_ptr<typename R::iterator> i;
  std::vector<u32> got;
  TopDown(G& g, const Csr& c, u32 seed) : g(g), c(c), seed(seed), n((u32)c.idx.size() - 1) { got.reserve(n + 2); name = "topdown_bfs_range"; }
  void start() override { i.reset(); r.reset(); got.clear(); r.reset(new R(g, seed)); resume(); }
  void resume() override { i.reset(); i.reset(new typename R::iterator(r->begin())); }
  bool step() override {
    if (!(*i != r->end())) return false;
    if (got.size() > n) return true;
    got.push_back((u32)**i);
    ++*i;
    return true;
  }
  void check(bool complete) override {
    auto d = bfs_depth(c, seed);
    std::vector<char> seen(n, 0);
    u32 level = 0, reach = 0;
    for (u32 v : got) {
      if (v >= n || d[v] == NONE) sim::violation("traversal", "topdown_bfs_range from %u: visits %u, which is not reachable", seed, v);
      if (seen[v]) sim::violation("traversal", "topdown_bfs_range from %u: visits %u twice", seed, v);
      if (d[v] < level) sim::violation("traversal", "topdown_bfs_range from %u: visits %u of level %u after a vertex of level %u", seed, v, d[v], level);
      seen[v] = 1;
      level = d[v];
    }
    for (u32 v = 0; v < n; v++) reach += d[v] != NONE;
    if (complete && got.size() != reach) sim::violation("traversal", "topdown_bfs_range from %u: %zu vertices, %u are reachable", seed, got.size(), reach);
  }
};
template <class G>
struct BfsEdge : Cursor {
  using R = bfs_edge_range<G>;
  using I = typename R::iterator;
  G& g; const Csr& c; u32 seed, n;
  std::unique_ptr<R> r;
  std::unique_ptr<I> i;
  bool weighted;
  std::vector<std::array<u32, 3>> got;
  BfsEdge(G& g, const Csr& c, u32 seed, bool weighted) : g(g), c(c), seed(seed), n((u32)c.idx.size() - 1), weighted(weighted) { got.reserve(n + 2); name = "bfs_edge_range"; }
  void start() override { i.reset(); r.reset(); got.clear(); r.reset(new R(g, seed)); i.reset(new I(r->begin())); }
  void resume() override { if (!r->empty()) { i.reset(); i.reset(new I(r->begin())); } }
  bool step() override {
    if (!(*i != r->end())) return false;
    if (got.size() > n) return true;
    auto e = **i;
    u32  w = 0;
    if constexpr (std::tuple_size_v<decltype(e)> == 3) w = (u32)std::get<2>(e);
    got.push_back({(u32)std::get<0>(e), (u32)std::get<1>(e), w});
    ++*i;
    return true;
  }
  void check(bool complete) override {
    auto d = bfs_depth(c, seed);
    std::vector<char> seen(n, 0);
    seen[seed] = 1;
    u32 level = 0, reach = 0;
    for (auto& [u, v, w] : got) {
      if (u >= n || !seen[u]) sim::violation("traversal", "bfs_edge_range from %u: edge (%u,%u) leaves a vertex not visited before", seed, u, v);
      bool there = false;
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) there |= c.to[k] == v && (!weighted || c.w[k] == w);
      if (!there) sim::violation("traversal", "bfs_edge_range from %u: there is no edge (%u,%u,%u)", seed, u, v, w);
      if (seen[v]) sim::violation("traversal", "bfs_edge_range from %u: edge (%u,%u) leads to a vertex visited before", seed, u, v);
      seen[v] = 1;
      if (d[v] != d[u] + 1 || d[v] < level) sim::violation("traversal", "bfs_edge_range from %u: edge (%u,%u) from level %u to %u after level %u", seed, u, v, d[u], d[v], level);
      level = d[v];
    }
    for (u32 v = 0; v < n; v++) reach += d[v] != NONE;
    if (complete && got.size() + 1 != reach) sim::violation("traversal", "bfs_edge_range from %u: %zu edges, %u vertices are reachable", seed, got.size(), reach);
  }
};
struct Walk : Cursor {
  using G = adjacency<0, int>;
  using R = random_range<G>;
  using I = typename R::iterator;
  G& g; const Csr& c; u32 first, len; unsigned seed;
  std::unique_ptr<R> r;
  std::unique_ptr<I> i;
  std::vector<u32> got;
  Walk(G& g, const Csr& c, u32 first, u32 len, unsigned seed) : g(g), c(c), first(first), len(len), seed(seed) { got.reserve(len + 2); name = "random_range"; }
  void start() override { i.reset(); r.reset(); got.clear(); fresh = true; r.reset(new R(g, len, first, seed)); i.reset(new I(r->begin())); }
  bool fresh = true;
  void resume() override { got.clear(); fresh = false; i.reset(); i.reset(new I(r->begin())); }   // a second walk of the range
  bool step() override {
    if (!(*i != r->end())) return false;
    if (got.size() > len) return true;
    got.push_back((u32)**i);
    ++*i;
    return true;
  }
  void check(bool complete) override {
    if (!got.empty() && got[0] != first) sim::violation("walk", "random_range from %u starts at %u", first, got[0]);
    for (std::size_t k = 1; k < got.size(); k++) {
      bool there = false;
      for (u32 p = c.idx[got[k - 1]]; p < c.idx[got[k - 1] + 1]; p++) there |= c.to[p] == got[k];
      if (!there) sim::violation("walk", "random_range from %u: step %zu goes from %u to %u, which is not a neighbour", first, k, got[k - 1], got[k]);
    }
    if (complete ? got.size() != len : got.size() > len) sim::violation("walk", "random_range: %zu vertices in a walk of %u", got.size(), len);
    if (complete && fresh) {   // the same seed again, alone
      std::vector<u32> alone;
      sim::Quiet       q;
      for (auto v : R(g, len, first, seed)) alone.push_back((u32)v);
      if (alone != got) sim::violation("walk", "random_range from %u with seed %u: another walk than when alone", first, seed);
    }
  }
};
struct Dag : Cursor {
  using R = dag_range<adjacency<0>>;
  using I = R::dag_range_iterator;
  Ctx& x;
  std::unique_ptr<R> r;
  std::unique_ptr<I> i;
  std::vector<std::array<u32, 3>> got;
  Dag(Ctx& x) : x(x) { got.reserve(x.dag_arcs + 2); name = "dag_range"; }
  void start() override { i.reset(); r.reset(); got.clear(); r.reset(new R(*x.D, x.pred, x.succ)); i.reset(new I(r->begin())); }
  bool step() override {
    if (!(*i != r->end())) return false;
    if (got.size() > x.dag_arcs) return true;
    auto e = **i;
    got.push_back({(u32)std::get<0>(e), (u32)std::get<1>(e), (u32)(std::get<2>(e) == yes)});
    ++*i;
    return true;
  }
  void check(bool complete) override {
    u32 n = (u32)x.pred.size();
    std::vector<u32> in(n, 0), out(n, 0);
    std::vector<std::vector<char>> done(n);
    for (u32 u = 0; u < n; u++) done[u].assign(x.succ[u].size(), 0);
    for (auto& [u, v, ready] : got) {
      if (u >= n || v >= n) sim::violation("topological-order", "dag_range: edge (%u,%u)", u, v);
      bool there = false;
      for (u32 k = 0; k < x.succ[u].size() && !there; k++)
        if (x.succ[u][k] == v && !done[u][k]) there = done[u][k] = 1;
      if (!there) sim::violation("topological-order", "dag_range: edge (%u,%u) is not in the graph, or came before", u, v);
      if (in[u] != x.pred[u].size()) sim::violation("topological-order", "dag_range: edge (%u,%u) before all %zu edges into %u", u, v, x.pred[u].size(), u);
      in[v]++;
      if ((ready != 0) != (in[v] == x.pred[v].size())) sim::violation("topological-order", "dag_range: vertex %u said to be %s after %u of its %zu edges", v, ready ? "ready" : "not ready", in[v], x.pred[v].size());
    }
    if (complete && got.size() != x.dag_arcs) sim::violation("topological-order", "dag_range: %zu edges of %u", got.size(), x.dag_arcs);
  }
};
// every edge with its back edge; the missing ones are added
struct Back : Cursor {
  using G = adjacency<0, int>;
  using R = back_edge_range<G>;
  G& g; const Csr& c; bool lazy; u32 n;
  std::unique_ptr<R> r;
  u32 v = 0;
  struct Item { u32 v, u, w; bool asked; u32 bu, bw; };
  std::vector<Item> got;
  std::vector<u32>  rows;   // items before row v
  Back(G& g, const Csr& c, bool lazy) : g(g), c(c), lazy(lazy), n((u32)c.idx.size() - 1) { got.reserve(4 * c.to.size() + 16); rows.reserve(n + 2); name = "back_edge_range"; }
  void start() override { r.reset(); got.clear(); rows.clear(); v = 0; asked_all = false; r.reset(new R(g, lazy)); }
  bool step() override {
    if (lazy && !asked_all) {   // asks for every back edge first, which adds the missing ones
      for (u32 k = c.idx[v]; k < c.idx[v + 1]; k++) {
        auto b = r->get_back_edge(v, c.to[k]);
        if ((u32)std::get<0>(b) != v) sim::violation("back-edge", "back_edge_range: the back edge of (%u,%u) leads to %u", v, c.to[k], (u32)std::get<0>(b));
      }
      if (++v == n) { asked_all = true; v = 0; }
      return true;
    }
    if (v >= n) return false;
    u32  first = (u32)got.size();
    auto row   = r->begin()[v];
    for (auto i = row.begin(); i != row.end() && got.size() < 4 * c.to.size() + 8; ++i) {
      auto e = *i;
      got.push_back({v, (u32)std::get<0>(e), (u32)std::get<1>(e), false, 0, 0});
    }
    rows.push_back(first);
    for (u32 k = first; k < got.size(); k++) {
      auto b = r->get_back_edge(v, got[k].u);
      got[k].bu = (u32)std::get<0>(b);
      got[k].bw = (u32)std::get<1>(b);
      got[k].asked = true;
    }
    v++;
    return true;
  }
  bool asked_all = false;
  bool arc(u32 a, u32 b, u32 w, bool any) const {
    for (u32 k = c.idx[a]; k < c.idx[a + 1]; k++) if (c.to[k] == b && (any || c.w[k] == w)) return true;
    return false;
  }
  void check(bool) override {
    for (u32 x = 0; x < rows.size(); x++) {
      u32 p = rows[x], q = x + 1 < rows.size() ? rows[x + 1] : (u32)got.size(), d = c.idx[x + 1] - c.idx[x];
      if (q - p < d) sim::violation("back-edge", "back_edge_range: vertex %u has %u edges, %u in the graph", x, q - p, d);
      std::vector<u32> extra, want;
      for (u32 k = p; k < q; k++) {
        if (k - p < d && (got[k].u != c.to[c.idx[x] + k - p] || got[k].w != c.w[c.idx[x] + k - p])) sim::violation("back-edge", "back_edge_range: edge %u of vertex %u is not the graph's", k - p, x);
        if (k - p >= d) extra.push_back(got[k].u);
        if (got[k].asked && got[k].bu != x) sim::violation("back-edge", "back_edge_range: the back edge of (%u,%u) leads to %u", x, got[k].u, got[k].bu);
        if (got[k].asked && arc(got[k].u, x, 0, true) && !arc(got[k].u, x, got[k].bw, false)) sim::violation("back-edge", "back_edge_range: the back edge of (%u,%u) holds %u, no edge of the graph", x, got[k].u, got[k].bw);
      }
      for (u32 u = 0; u < n; u++) if (arc(u, x, 0, true) && !arc(x, u, 0, true)) want.push_back(u);
      std::sort(extra.begin(), extra.end());
      if (extra != want) sim::violation("back-edge", "back_edge_range: vertex %u has %zu added edges, %zu edges into it have no other", x, extra.size(), want.size());
    }
  }
};
CursorP mk_cursor(Ctx& c) {
  u32 n = c.x.dir.n, s = (u32)sim::wl(n);
  switch (sim::wl(11)) {
    case 0: sim::note("topdown_bfs_range from %u", s); return std::make_shared<TopDown<adjacency<0>>>(c.x.A, c.x.d_out, s);
    case 1: sim::note("topdown_bfs_range from %u, symmetric graph", s); return std::make_shared<TopDown<adjacency<0>>>(c.x.S, c.x.s_out, s);
    case 2: sim::note("topdown_bfs_range from %u, vectors", s); return std::make_shared<TopDown<vov<0, int>>>(*c.V, c.x.d_out, s);
    case 3: sim::note("bfs_edge_range from %u, weighted", s); return std::make_shared<BfsEdge<adjacency<0, int>>>(c.x.WA, c.x.d_out, s, true);
    case 4: sim::note("bfs_edge_range from %u, symmetric graph", s); return std::make_shared<BfsEdge<adjacency<0>>>(c.x.S, c.x.s_out, s, false);
    case 5: sim::note("bfs_edge_range from %u", s); return std::make_shared<BfsEdge<adjacency<0>>>(c.x.A, c.x.d_out, s, false);
    case 6: sim::note("bfs_edge_range from %u, lists", s); return std::make_shared<BfsEdge<adj_list<0, int>>>(*c.L, c.x.d_out, s, true);
    case 7: {
      auto d = bfs_depth(c.x.d_out, s);
      bool dead = false;
      for (u32 v = 0; v < n; v++) dead |= d[v] != NONE && c.x.d_out.idx[v] == c.x.d_out.idx[v + 1];
      if (!dead) {   // no walk from here can get stuck
        u32      len  = 1 + (u32)sim::wl(12);
        unsigned seed = (unsigned)sim::wl(1000);
        sim::note("random_range from %u, %u vertices, seed %u", s, len, seed);
        return std::make_shared<Walk>(c.x.WA, c.x.d_out, s, len, seed);
      }
      sim::note("dag_range");
      return std::make_shared<Dag>(c);
    }
    case 8: {
      bool lazy = sim::wlp(40);
      sim::note("back_edge_range%s", lazy ? " as needed" : "");
      return std::make_shared<Back>(c.x.WA, c.x.d_out, lazy);
    }
    default: sim::note("dag_range"); return std::make_shared<Dag>(c);
  }
}
void scenario(int tier) {
  GenOpts o;
  o.small = 9; o.medium = 24; o.large = tier ? 70 : 40;
  o.huge = 1;
  o.maxw = 9;
  Ctx c;
  make_ctx(c.x, o, sim::wlp(50));
  u32 n = c.x.dir.n;
  note_graph(c.x.dir, true);
  {
    c.V = std::make_shared<vov<0, int>>(n);
    c.L = std::make_shared<adj_list<0, int>>(n);
    for (u32 u = 0; u < n; u++)
      for (u32 k = c.x.d_out.idx[u]; k < c.x.d_out.idx[u + 1]; k++) {
        c.V->push_back(u, c.x.d_out.to[k], (int)c.x.d_out.w[k]);
        c.L->push_back(u, c.x.d_out.to[k], (int)c.x.d_out.w[k]);
      }
    // arcs turned to point up in a random order of the vertices
    std::vector<u32> pos(n);
    for (u32 v = 0; v < n; v++) pos[v] = v;
    for (u32 v = n; v-- > 1;) std::swap(pos[v], pos[sim::wl(v + 1)]);
    c.pred.resize(n); c.succ.resize(n);
    Gr dg; dg.n = n;
    for (auto a : c.x.dir.e) {
      if (a.u == a.v) continue;
      if (pos[a.u] > pos[a.v]) std::swap(a.u, a.v);
      c.succ[a.u].push_back(a.v);
      c.pred[a.v].push_back(a.u);
      dg.e.push_back(a);
      c.dag_arcs++;
    }
    c.D = std::make_shared<adjacency<0>>(to_adj<0>(csr(dg, false, false)));
  }
  auto pred = c.pred, succ = c.succ;
  u32  nt = 1 + (u32)sim::wl(4);
  static const u32 spans[] = {4, 8, 16, 40, 150};
  u32 k = sim::flt(3) ? (u32)sim::flt(spans[sim::flt(5)]) : 0;   // 0: none
  if (k) sim::note("allocation %u fails", k);
  std::uint64_t before = sim::live_blocks();
  {
    struct Act { u32 cur, steps; bool resume; };
    std::vector<std::vector<CursorP>>        cur(nt);
    std::vector<std::vector<Act>>            plan(nt);
    std::vector<std::vector<char>>           state(nt);   // 0: in progress, 1: complete, 2: threw
    std::vector<std::pair<u64, u64>>         span(nt);
    for (u32 t = 0; t < nt; t++) {
      u32 m = 1 + (u32)sim::wl(3);
      sim::note("caller %u:", t);
      for (u32 i = 0; i < m; i++) cur[t].push_back(mk_cursor(c));
      state[t].assign(m, 0);
      u32 acts = (u32)sim::wl(10);
      for (u32 i = 0; i < acts; i++) plan[t].push_back({(u32)sim::wl(m), 1 + (u32)sim::wl(6), sim::wlp(20)});
      bool abandon = sim::wlp(20);
      for (u32 i = 0; i < m; i++) if (!abandon || i) plan[t].push_back({i, ~0u, sim::wlp(20)});
    }
    u32 thrown = 0;
    sim::run([&] {
      std::vector<int> ids;
      ids.reserve(nt);
      auto work = [&](u32 t) {
        span[t].first = sim::now_steps();
        auto guard = [&](u32 i, auto&& f) {
          if (state[t][i] == 2) return;
          try { f(); }
          catch (const std::bad_alloc&) { state[t][i] = 2; }
        };
        for (u32 i = 0; i < cur[t].size(); i++) guard(i, [&] { cur[t][i]->start(); });
        for (auto& a : plan[t]) guard(a.cur, [&] {
          if (a.resume) { cur[t][a.cur]->resume(); if (cur[t][a.cur]->name == "random_range") state[t][a.cur] = 0; }
          for (u32 s = 0; s < a.steps && !state[t][a.cur]; s++) {
            if (a.steps == ~0u && s > 4 * n + 4 * c.dag_arcs + 64) sim::violation("traversal", "%s: does not come to an end", cur[t][a.cur]->name.c_str());
            if (!cur[t][a.cur]->step()) state[t][a.cur] = 1;
          }
        });
        span[t].second = sim::now_steps();
      };
      for (u32 t = 1; t < nt; t++) ids.push_back(sim::client([&, t] { work(t); }));
      sim::arm_alloc_failure(k);   // from here on only the traversals allocate
      work(0);
      for (int id : ids) sim::join_client(id);
      sim::disarm_alloc_failure();
    });
    bool fired = sim::alloc_failure_fired();
    for (u32 t = 0; t < nt; t++) for (u32 i = 0; i < cur[t].size(); i++) {
      if (state[t][i] != 2) cur[t][i]->check(state[t][i] == 1);
      thrown += state[t][i] == 2;
    }
    if (thrown > (fired ? 1u : 0u)) sim::violation("failure", "%u traversals threw bad_alloc after %s", thrown, fired ? "one failed allocation" : "no failure");
    sim::note("%s", !fired ? "no failure" : thrown ? "one traversal threw" : "the failure was absorbed");
    if (thrown) {   // made again from the start
      sim::probe("failed traversal repeated");
      for (u32 t = 0; t < nt; t++) for (u32 i = 0; i < cur[t].size(); i++) if (state[t][i] == 2) {
        sim::run([&] { cur[t][i]->start(); while (cur[t][i]->step()) if (sim::now_steps() > 100000000) sim::violation("traversal", "%s: does not come to an end", cur[t][i]->name.c_str()); });
        cur[t][i]->check(true);
      }
    }
    bool overlap = false;
    for (u32 a = 0; a < nt; a++) for (u32 b = 0; b < a; b++) overlap |= span[a].first < span[b].second && span[b].first < span[a].second;
    if ((overlap && c.x.dir.e.size() >= 3 && sim::preemptions() >= 3) || fired || cur[0].size() > 1) sim::mark_nontrivial();
  }
  ctx_unchanged(c.x);
  if (pred != c.pred || succ != c.succ) sim::violation("graph-changed", "dag_range changed the lists it was given");
  {
    sim::Quiet q;
    same_graph<true>("vector", *c.V, c.x.d_out);
    same_graph<true>("list", *c.L, c.x.d_out);
  }
  if (sim::live_blocks() > before) {
    sim::show_live_blocks();
    sim::violation("leak", "%llu blocks are still allocated after the traversals", (unsigned long long)(sim::live_blocks() - before));
  }
}
}
const PropertyDef g_properties[] = {{"C28", scenario, "a run counts when one caller had several traversals in progress, or traversals of at least 2 callers overlapped in time on a graph of at least 3 arcs with at least 3 preemptions, or an injected allocation failure hit a traversal; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
