// Triangle counting: every version counts each triangle of the undirected graph exactly once.
#include "variants.h"
#include "nwgraph/adaptors/edge_range.hpp"
#include "nwgraph/algorithms/triangle_count.hpp"
#include "nwgraph/experimental/algorithms/triangle_count.hpp"
using namespace h;

static u64 brute(const Gr& sym) {
  std::vector<std::vector<u32>> up(sym.n);
  for (auto& a : sym.e) if (a.u < a.v) up[a.u].push_back(a.v);
  for (auto& r : up) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); }
  u64 t = 0;
  for (u32 u = 0; u < sym.n; u++)
    for (u32 v : up[u])
      for (u32 w : up[v]) t += std::binary_search(up[u].begin(), up[u].end(), w);
  return t;
}

template <bool Split, bool Bare, class G>
static std::size_t call(int ver, const G& A, std::size_t threads, int stride, int pol) {
    namespace ex = std::execution;
    auto set = [&](auto f) { return pol == 1 ? f(ex::par) : pol == 2 ? f(ex::par_unseq) : f(ex::seq); };
    switch (ver) {
      case 0: return triangle_count(A, threads);
      case 1: return triangle_count_v4(A.begin(), A.end(), threads);
      case 2: return triangle_count_v5(A.begin(), A.end(), threads);
      case 3: if constexpr (Bare) return triangle_count_v6(A.begin(), A.end(), threads); break;
      case 4: return pol == 0 ? triangle_count_v7(A) : pol == 3 ? triangle_count_v7(A, ex::par) : set([&](auto p) { return triangle_count_v7(A, ex::par_unseq, p); });
      case 5: return pol == 0 ? triangle_count_v10(A) : pol == 3 ? triangle_count_v10(A, ex::par, ex::seq) : set([&](auto p) { return triangle_count_v10(A, ex::par_unseq, ex::par, p); });
      case 6: return set([&](auto p) { return triangle_count_v12(A, stride, p); });
      case 7: return set([&](auto p) { return triangle_count_v13(A, stride, p); });
      case 8: return set([&](auto p) { return triangle_count_v14(A, p); });
      case 9: if constexpr (Split) return triangle_count_edgesplit(A, threads); break;
      case 10: if constexpr (Split) return triangle_count_edgesplit_upper(A, threads); break;
      case 11: return triangle_count(A);
      case 12: return triangle_count_v1(A);
      case 13: return triangle_count_v2(A);
      case 14: return triangle_count_v3(A);
      case 15: return triangle_count_v15(A);
      case 16: if constexpr (Split) return triangle_count_vc(A); break;
    }
    return ~std::size_t(0);
}

JobP h::make_tc(GraphCtx& x) {
  static const char* names[] = {"triangle_count(G,threads)", "triangle_count_v4", "triangle_count_v5", "triangle_count_v6", "triangle_count_v7", "triangle_count_v10", "triangle_count_v12", "triangle_count_v13", "triangle_count_v14", "triangle_count_edgesplit", "triangle_count_edgesplit_upper", "triangle_count", "triangle_count_v1", "triangle_count_v2", "triangle_count_v3", "triangle_count_v15", "triangle_count_vc"};
  static const int   pick[]  = {0, 0, 0, 0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 8, 9, 10, 9, 10, 11};
  static const std::size_t thr[] = {2, 1, 3, 4, 5, 8, 17};
  static const int strides[] = {4, 1, 2, 3, 7, 16, 32, 512};
  int ver = pick[sim::wl(20)];
  if (ver == 11) ver = 11 + (int)sim::wl(6);   // the sequential versions
  std::size_t threads = thr[sim::wl(7)];
  int stride = strides[sim::wl(8)];
  bool upper_only = ver == 0 || ver == 1 || ver == 2 || ver == 4 || ver == 6 || ver == 10 || ver == 12;
  bool upper = upper_only || !sim::wl(2);
  int pol = (int)sim::wl(4);
  sim::note("%s on the %s triangle, %zu threads, stride %d, policies %d", names[ver], upper ? "upper" : "lower", threads, stride, pol);
  sim::probe(names[ver]);
  static const char* types[] = {"adjacency", "adjacency with weights", "adjacency of 64-bit ids", "adjacency of 16-bit ids", "vov"};
  int ty = (int)sim::wl(12);
  ty = ty < 8 ? 0 : ty - 7;
  if (ty == 4 && (ver == 9 || ver == 10 || ver == 16)) ver = 0, upper = true;
  if (ty == 1 && ver == 3) ver = 4, upper = true;
  auto c = std::make_shared<Csr>();
  {
    Gr t; t.n = x.sym.n;
    std::set<std::pair<u32, u32>> s;
    for (auto& a : x.sym.e) if ((upper ? a.u < a.v : a.u > a.v) && s.insert({a.u, a.v}).second) t.e.push_back(a);
    if (ty == 3 && (t.n > 60000 || t.e.size() > 60000)) ty = 2;
    *c = csr(t, false, true);
  }
  sim::note("an %s", types[ty]);
  sim::probe(types[ty]);
  auto r = std::make_shared<std::size_t>(0);
  auto on = [&](auto split, auto bare, auto g) {
    return job(names[ver], [=] { *r = call<split.value, bare.value>(ver, *g, threads, stride, pol); }, [=, &x] {
      u64 want = brute(x.sym);
      if (*r != want) sim::violation("triangles", "%s on the %s triangle counted %zu triangles, there are %llu", names[ver], upper ? "upper" : "lower", *r, (unsigned long long)want);
      same_rows(types[ty], *g, *c);
    });
  };
  auto mk = [&]<class G>() { return std::make_shared<G>(Make<G>::make(*c)); };
  using std::true_type; using std::false_type;
  switch (ty) {
    case 1: return on(true_type{}, false_type{}, mk.operator()<adjacency<0, int>>());
    case 2: return on(true_type{}, true_type{}, mk.operator()<index_adjacency<0, u64, u64>>());
    case 3: return on(true_type{}, true_type{}, mk.operator()<index_adjacency<0, u16, u16>>());
    case 4: return on(false_type{}, true_type{}, mk.operator()<vov<0>>());
  }
  return on(true_type{}, true_type{}, mk.operator()<adjacency<0>>());
}
