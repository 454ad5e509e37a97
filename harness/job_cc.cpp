// Connected components: every version labels two vertices alike exactly when they are connected.
#include "variants.h"
#include "nwgraph/adaptors/plain_range.hpp"
#include "nwgraph/algorithms/connected_components.hpp"
#include "nwgraph/experimental/algorithms/connected_components.hpp"
#include <map>
using namespace h;

static void check(const char* ver, const Gr& g, const std::vector<u32>& comp) {
  if (comp.size() < g.n) sim::violation("components", "%s: %zu labels for %u vertices", ver, comp.size(), g.n);
  Dsu d(g.n);
  for (auto& a : g.e) d.join(a.u, a.v);
  for (auto& a : g.e)
    if (comp[a.u] != comp[a.v]) sim::violation("components", "%s: %u and %u are joined by an edge but labelled %u and %u", ver, a.u, a.v, comp[a.u], comp[a.v]);
  std::map<u32, u32> root;
  for (u32 v = 0; v < g.n; v++) {
    auto [it, fresh] = root.insert({comp[v], v});
    if (!fresh && d.find(it->second) != d.find(v)) sim::violation("components", "%s: %u and %u are not connected but both labelled %u", ver, it->second, v, comp[v]);
  }
}

template <bool Cyc, bool Plain, class G, class H>
static void call(int ver, G& gm, H& tm, int rounds, int bins, std::vector<u32>& p) {
  const auto& g = gm;
  const auto& t = tm;
  auto copy = [&](const auto& v) { p.resize(v.size()); for (std::size_t i = 0; i < v.size(); i++) p[i] = (u32)v[i]; };
  switch (ver) {
    case 0: if constexpr (!Plain) copy(afforest(std::execution::seq, g, t, rounds)); break;
    case 1: if constexpr (!Plain) copy(afforest(std::execution::par_unseq, g, t, rounds)); break;
    case 2: if constexpr (!Plain) copy(afforest(std::execution::par, g, t, rounds)); break;
    case 3: copy(ccv1(g)); break;
    case 4: copy(compute_connected_components_v2(g)); break;
    case 5: copy(ccv5(g)); break;
    case 6: copy(sv_v6(g)); break;
    case 7: copy(sv_v8(gm)); break;
    case 8: if constexpr (!Plain) copy(sv_v9(gm)); break;
    case 9: if constexpr (!Plain) copy(lpcc(std::execution::par_unseq, gm, bins)); break;
    case 10: if constexpr (Cyc) copy(lpcc_cyclic(std::execution::par_unseq, gm, bins)); break;
    case 11: copy(Afforest(g, tm, rounds)); break;
  }
}

JobP h::make_cc(GraphCtx& x) {
  static const char* names[] = {"afforest(seq)", "afforest(par_unseq)", "afforest(par)", "ccv1", "compute_connected_components_v2", "ccv5", "sv_v6", "sv_v8", "sv_v9", "lpcc", "lpcc_cyclic", "Afforest"};
  static const int   pick[]  = {1, 1, 1, 2, 2, 0, 3, 4, 5, 5, 6, 7, 8, 9, 9, 10, 11, 11};
  int                ver     = pick[sim::wl(18)];
  bool directed = sim::wl(3) == 2 && (ver <= 4 || (ver >= 6 && ver <= 8) || ver == 11);
  static const int rounds_[] = {2, 1, 0, 3, 5};
  int rounds = rounds_[sim::wl(5)];
  static const int bins_[] = {32, 1, 2, 4, 8, 3};
  int bins = bins_[sim::wl(6)];
  static const char* types[] = {"adjacency", "adjacency with weights", "adjacency of 64-bit ids", "adjacency of 16-bit ids", "vector of vectors"};
  int ty = (int)sim::wl(12);
  ty = ty < 8 ? 0 : ty - 7;
  if (ty == 1 && ver == 10) ver = 9;
  if (ty == 4 && (ver <= 2 || ver >= 8)) ver = 11;
  if (ty == 3 && (x.dir.n > 60000 || x.sym.e.size() > 60000)) ty = 2;
  sim::note("%s on the %s graph, %d rounds, %d bins, %s", names[ver], directed ? "directed" : "symmetric", rounds, bins, types[ty]);
  sim::probe(names[ver]);
  sim::probe(types[ty]);
  auto p = std::make_shared<std::vector<u32>>();
  auto E = std::make_shared<adjacency<1>>(0);
  const Csr& cg = directed ? x.d_out : x.s_out;
  auto ct = std::make_shared<Csr>();
  if (directed) *ct = x.d_in; else ct->idx = {0};
  auto on = [&](auto cyc, auto plain, auto held) {
    return job(names[ver], [=] { call<cyc.value, plain.value>(ver, held->g, held->t, rounds, bins, *p); }, [=, &x, &cg] {
      sim::note("labels %s", show(*p).c_str());
      ::check(names[ver], directed ? x.dir : x.sym, *p);
      same_rows(types[ty], held->g, cg);
      same_rows(types[ty], held->t, *ct);
    });
  };
  using std::true_type; using std::false_type;
  switch (ty) {
    case 1: return on(false_type{}, false_type{}, std::make_shared<Held<adjacency<0, int>, adjacency<1, int>>>(cg, *ct));
    case 2: return on(true_type{}, false_type{}, std::make_shared<Held<index_adjacency<0, u64, u64>, index_adjacency<1, u64, u64>>>(cg, *ct));
    case 3: return on(true_type{}, false_type{}, std::make_shared<Held<index_adjacency<0, u16, u16>, index_adjacency<1, u16, u16>>>(cg, *ct));
    case 4: return on(false_type{}, true_type{}, std::make_shared<Held<VV>>(cg, *ct));
  }
  return job(names[ver], [=, &x] { call<true, false>(ver, directed ? x.A : x.S, directed ? x.T : *E, rounds, bins, *p); }, [=, &x] {
    sim::note("labels %s", show(*p).c_str());
    ::check(names[ver], directed ? x.dir : x.sym, *p);
  });
}
