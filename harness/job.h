// A job is one call of the library on a shared graph context, together with the check of its result.
#pragma once
#include "nw.h"
#include <memory>
namespace h {
struct GraphCtx {
  Gr  dir, sym;           // as generated; symmetrised
  Csr d_out, d_in, s_out; // rows in the order the arcs were listed, or sorted
  // the graph objects the calls share
  adjacency<0>      A;    // directed
  adjacency<1>      T;    // its transpose
  adjacency<0>      S;    // symmetric
  adjacency<1>      ST;
  adjacency<0, int> WA;   // weighted directed
  bool              simple = false;   // sym has no parallel arcs and no loops
};
inline void make_ctx(GraphCtx& c, const GenOpts& o, bool simple) {
  c.dir    = gen_graph(o);
  c.simple = simple;
  c.sym    = symmetrise(c.dir, simple, !simple);
  bool sorted = simple || sim::wlp(60);
  c.d_out = csr(c.dir, false, sorted);
  c.d_in  = csr(c.dir, true, sorted);
  c.s_out = csr(c.sym, false, sorted);
  c.A  = to_adj<0>(c.d_out);
  c.T  = to_adj<1>(c.d_in);
  c.S  = to_adj<0>(c.s_out);
  c.ST = to_adj<1>(c.s_out);
  c.WA = to_adjw<0, int>(c.d_out);
}
// the graph objects still hold what they were built from
template <bool W, class A>
void same_graph(const char* name, A& a, const Csr& c) {
  std::size_t u = 0;
  for (auto&& row : a) {
    if (u + 1 >= c.idx.size()) sim::violation("graph-changed", "%s graph: more rows than before", name);
    std::size_t k = c.idx[u];
    for (auto&& e : row) {
      if (k >= c.idx[u + 1] || std::get<0>(e) != c.to[k]) sim::violation("graph-changed", "%s graph: vertex %zu has another neighbour (%u)", name, u, (u32)std::get<0>(e));
      if constexpr (W) if ((u32)std::get<1>(e) != c.w[k]) sim::violation("graph-changed", "%s graph: another weight on an edge of %zu", name, u);
      k++;
    }
    if (k != c.idx[u + 1]) sim::violation("graph-changed", "%s graph: vertex %zu lost a neighbour", name, u);
    u++;
  }
  if (u + 1 != c.idx.size()) sim::violation("graph-changed", "%s graph: fewer rows than before", name);
}
inline void ctx_unchanged(GraphCtx& c) {
  sim::Quiet q;
  same_graph<false>("directed", c.A, c.d_out);
  same_graph<false>("transposed", c.T, c.d_in);
  same_graph<false>("symmetric", c.S, c.s_out);
  same_graph<false>("symmetric transposed", c.ST, c.s_out);
  same_graph<true>("weighted", c.WA, c.d_out);
}
struct Job {
  std::string name;
  virtual void run()   = 0;      // under the simulator
  virtual void check() = 0;      // outside
  virtual bool big() { return true; }
  virtual ~Job() {}
};
using JobP = std::unique_ptr<Job>;
template <class R, class C>
struct FnJob : Job {
  R r; C c;
  bool ok_big = true;
  FnJob(std::string n, R r_, C c_) : r(std::move(r_)), c(std::move(c_)) { name = std::move(n); }
  void run() override { r(); }
  void check() override { sim::Quiet q; c(); }
};
template <class R, class C>
JobP job(std::string n, R r, C c) { return JobP(new FnJob<R, C>(std::move(n), std::move(r), std::move(c))); }
// factories, one per algorithm family
JobP make_bfs(GraphCtx&);
JobP make_cc(GraphCtx&);
JobP make_sssp(GraphCtx&);
JobP make_pr(GraphCtx&);
JobP make_tc(GraphCtx&);
JobP make_bc(GraphCtx&);
}  // namespace h
