// Breadth-first search: every version returns a breadth-first parent array.
#include "variants.h"
#include "nwgraph/algorithms/bfs.hpp"
#include "nwgraph/experimental/algorithms/bfs.hpp"
using namespace h;

static void check(const char* ver, const Gr& g, const Csr& out, u32 root, const std::vector<u32>& parents) {
  sim::Quiet q;
  if (parents.size() != g.n) sim::violation("bfs", "%s: parent array has %zu entries for %u vertices", ver, parents.size(), g.n);
  auto d = bfs_depth(out, root);
  for (u32 v = 0; v < g.n; v++) {
    u32 p = parents[v];
    if (v == root) {
      if (p != root) sim::violation("bfs", "%s: parent of the root %u is %u", ver, root, p);
      continue;
    }
    if (d[v] == NONE) {
      if (p != NONE) sim::violation("bfs", "%s: vertex %u is unreachable from %u but has parent %u", ver, v, root, p);
      continue;
    }
    if (p == NONE) sim::violation("bfs", "%s: vertex %u is reachable from %u (depth %u) but has no parent", ver, v, root, d[v]);
    if (p >= g.n) sim::violation("bfs", "%s: parent of %u is %u, not a vertex", ver, v, p);
    bool edge = false;
    for (u32 k = out.idx[p]; k < out.idx[p + 1]; k++) edge |= out.to[k] == v;
    if (!edge) sim::violation("bfs", "%s: parent %u of %u is not a neighbour", ver, p, v);
    if (d[p] == NONE || d[p] + 1 != d[v]) sim::violation("bfs", "%s: parent %u of %u is at depth %d, the vertex at depth %u", ver, p, v, d[p] == NONE ? -1 : (int)d[p], d[v]);
  }
}


template <bool Trans, bool Tbb, class G, class H>
static std::vector<u32> call(int ver, const G& A, const H& T, u32 root, int nb, int al, int be) {
  switch (ver) {
    case 0: if constexpr (Trans) return to_u32(bfs(A, T, root, nb, al, be)); break;
    case 2: if constexpr (Trans) return to_u32(bfs_v1(A, T, root, nb, al, be)); break;
    case 3: if constexpr (Trans) return to_u32(bfs_v2(A, T, root, nb, al, be)); break;
    case 4: return to_u32(bfs_v6(A, root));
    case 5: return to_u32(bfs_v7(A, root));
    case 6: return to_u32(bfs_v8(A, root));
    case 7: if constexpr (Trans) return to_u32(bfs_v9(A, root)); break;
    case 8: if constexpr (Tbb) return to_u32(bfs_top_down(A, root)); break;
    case 9: if constexpr (Tbb) return to_u32(bfs_top_down_bitmap(A, root)); break;
    case 10: return to_u32(bfs_bottom_up(A, T, root));
  }
  return to_u32(bfs(A, root));
}

JobP h::make_bfs(GraphCtx& x) {
  u32 root = (u32)sim::wl(x.dir.n);
  static const char* names[] = {"bfs(g,gx)", "bfs(g)", "bfs_v1", "bfs_v2", "bfs_v6", "bfs_v7", "bfs_v8", "bfs_v9", "bfs_top_down", "bfs_top_down_bitmap", "bfs_bottom_up"};
  static const int   pick[]  = {0, 0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10};
  int                ver     = pick[sim::wl(16)];
  static const int   bins[]  = {32, 1, 2, 4, 8, 33, 3, 64};
  static const int   alphas[] = {15, 1, 2, 5, 40, 1000}, betas[] = {18, 1, 2, 4, 50, 1000};
  int nb = bins[sim::wl(8)], al = alphas[sim::wl(6)], be = betas[sim::wl(6)];
  static const char* types[] = {"adjacency", "adjacency with weights", "adjacency of 64-bit ids", "adjacency of 16-bit ids", "vector of vectors"};
  int ty = (int)sim::wl(12);
  ty = ty < 8 ? 0 : ty - 7;
  if (x.dir.deep) {   // too deep for a parallel loop per level
    ver = 1;
    for (u32 v = 0; v < x.dir.n; v++) if (x.d_in.idx[v] == x.d_in.idx[v + 1] && x.d_out.idx[v] != x.d_out.idx[v + 1]) root = v;
  }
  if (ty == 1 && (ver == 8 || ver == 9)) ver = 0;
  if (ty == 4 && (ver == 0 || ver == 2 || ver == 3 || (ver >= 7 && ver <= 9))) ver = 1;
  if (ty == 3 && (x.dir.n > 60000 || x.dir.e.size() > 60000)) ty = 2;
  sim::note("%s from %u, bins %d alpha %d beta %d, on an %s", names[ver], root, nb, al, be, types[ty]);
  sim::probe(names[ver]);
  sim::probe(types[ty]);
  auto p = std::make_shared<std::vector<u32>>();
  auto on = [&](auto tr, auto tb, auto held) {
    return job(names[ver], [=] { *p = call<tr.value, tb.value>(ver, held->g, held->t, root, nb, al, be); }, [=, &x] {
      sim::note("parents %s", show(*p).c_str());
      ::check(names[ver], x.dir, x.d_out, root, *p);
      same_rows(types[ty], held->g, x.d_out);
      same_rows(types[ty], held->t, x.d_in);
    });
  };
  using std::true_type; using std::false_type;
  switch (ty) {
    case 1: return on(true_type{}, false_type{}, std::make_shared<Held<adjacency<0, int>, adjacency<1, int>>>(x.d_out, x.d_in));
    case 2: return on(true_type{}, true_type{}, std::make_shared<Held<index_adjacency<0, u64, u64>, index_adjacency<1, u64, u64>>>(x.d_out, x.d_in));
    case 3: return on(true_type{}, true_type{}, std::make_shared<Held<index_adjacency<0, u16, u16>, index_adjacency<1, u16, u16>>>(x.d_out, x.d_in));
    case 4: return on(false_type{}, false_type{}, std::make_shared<Held<VV>>(x.d_out, x.d_in));
  }
  return job(names[ver], [=, &x] { *p = call<true, true>(ver, x.A, x.T, root, nb, al, be); }, [=, &x] {
    sim::note("parents %s", show(*p).c_str());
    ::check(names[ver], x.dir, x.d_out, root, *p);
  });
}
