// Degrees: every parallel degree computation counts exactly.
#include "variants.h"
#include <string>
using namespace h;
namespace {
template <class V>
void check(const char* w, const V& got, const std::vector<u32>& want) {
  sim::Quiet q;
  if (got.size() != want.size()) sim::violation("degrees", "%s: %zu degrees for %zu vertices", w, got.size(), want.size());
  for (std::size_t v = 0; v < want.size(); v++) if ((u64)got[v] != want[v]) sim::violation("degrees", "%s: degree of %zu is %llu, should be %u", w, v, (unsigned long long)got[v], want[v]);
}
template <class EL, class... P>
void el_case(EL& el, const Gr& g, int idx, bool both, u32 n, int pol) {
  std::vector<u32> want(n);
  for (auto& a : g.e) {
    if (both || idx == 0) want[a.u]++;
    if (both || idx == 1) want[a.v]++;
  }
  sim::note("degrees<%d>(edge list), %s, policy %d", idx, both ? "undirected" : "directed", pol);
  std::vector<u64> got;
  auto go = [&](auto& policy) { auto r = idx == 0 ? degrees<0>(el, policy) : degrees<1>(el, policy); got.assign(r.begin(), r.end()); };
  sim::run([&] {
    if (pol == 1) go(std::execution::par); else if (pol == 2) go(std::execution::seq); else { auto r = idx == 0 ? degrees<0>(el) : degrees<1>(el); got.assign(r.begin(), r.end()); }
  });
  check("degrees(edge list)", got, want);
}
template <class EL>
EL list_of(EL el, const Gr& g) {
  using E = typename EL::value_type;
  el.open_for_push_back();
  for (auto& a : g.e) {
    if constexpr (std::tuple_size_v<E> == 2) el.push_back(a.u, a.v);
    else if constexpr (std::is_same_v<std::tuple_element_t<2, E>, std::string>) el.push_back(a.u, a.v, std::string(a.v % 40, 'x'));
    else if constexpr (std::tuple_size_v<E> == 3) el.push_back(a.u, a.v, 1);
    else el.push_back(a.u, a.v, 1, 2);
  }
  el.close_for_push_back();
  return el;
}
template <class G>
void graph_case(const char* type, const Gr& g, G graph, int way, int pol) {
  std::vector<u32> want(g.n);
  for (auto& a : g.e) want[a.u]++;
  static const char* ways[] = {"degrees(graph)", "member degrees(policy)", "member degrees()", "degree of a vertex", "degree of a row", "degree of a row alone"};
  sim::note("%s of %s, policy %d", ways[way], type, pol);
  sim::probe(ways[way]);
  sim::probe(type);
  const G& ca = graph;
  std::vector<u64> got;
  auto put = [&](auto&& r) { got.assign(r.begin(), r.end()); };
  auto each = [&](auto f) {   // every caller of its own, as parallel algorithms do
    got.assign(ca.size(), 0);
    tbb::parallel_for(tbb::blocked_range<std::size_t>(0, ca.size()), [&](auto& r) { for (auto u = r.begin(); u < r.end(); u++) got[u] = f(u); });
  };
  sim::run([&] {
    switch (way) {
      case 0: if (pol == 1) put(degrees(ca, std::execution::par)); else put(degrees(ca)); break;
      case 1: if (pol == 1) put(ca.degrees(std::execution::par)); else if (pol == 2) put(ca.degrees(std::execution::seq)); else put(ca.degrees(std::execution::par_unseq)); break;
      case 2: { std::vector<typename decltype(graph.indices_)::value_type> (G::*f)() const = &G::degrees; put((ca.*f)()); } break;
      case 3: if (pol == 1) each([&](std::size_t u) { return (u64)degree(ca, (u64)u); }); else each([&](std::size_t u) { return (u64)degree(ca, (u32)u); }); break;
      case 4: each([&](std::size_t u) { return (u64)degree(graph, graph[u]); }); break;
      default: each([&](std::size_t u) { return (u64)degree(ca[u]); }); break;
    }
  });
  check(ways[way], got, want);
}
void scenario(int tier) {
  GenOpts o;
  o.small = 10; o.medium = 60; o.large = tier ? 2000 : 800;
  o.huge = 1;
  Gr g = gen_graph(o);
  int idx = (int)sim::wl(2), pol = (int)sim::wl(3);
  note_graph(g);
  constexpr auto dir = directedness::directed, und = directedness::undirected;
  using uni = unipartite_graph_base;
  using bip = bipartite_graph_base;
  if (sim::wl(2)) {
    static const char* types[] = {"directed edge list", "undirected edge list", "bipartite edge list", "64-bit edge list with text", "16-bit undirected edge list", "undirected edge list with two properties", "undirected bipartite edge list", "64-bit bipartite edge list with text"};
    u32 ty = (u32)sim::wl(8);
    u32 n0 = g.n, n1 = g.n;
    if (ty == 2 || ty > 5) {
      n0 = 1 + (u32)sim::wl(g.n), n1 = 1 + (u32)sim::wl(g.n);
      for (auto& a : g.e) { a.u %= n0; a.v %= n1; }
    }
    sim::probe(types[ty]);
    sim::note("%s", types[ty]);
    auto run = [&](auto&& made, bool both) { auto el = list_of(std::move(made), g); el_case(el, g, idx, both, idx ? n1 : n0, pol); };
    switch (ty) {
      case 0: run(edge_list<dir>(n0), false); break;
      case 1: run(edge_list<und, int>(n0), true); break;
      case 2: run(bi_edge_list<dir>(n0, n1), false); break;
      case 3: run(index_edge_list<u64, uni, dir, std::string>(n0), false); break;
      case 4: run(index_edge_list<u16, uni, und>(n0), true); break;
      case 5: run(edge_list<und, double, int>(n0), true); break;
      case 6: run(bi_edge_list<und, int>(n0, n1), false); break;
      default: run(index_edge_list<u64, bip, dir, std::string>(n0, n1), false); break;
    }
  } else {
    Csr c = csr(g, false, false);
    int way = (int)sim::wl(6);
    switch (sim::wl(6)) {
      case 0: graph_case("adjacency", g, to_adj<0>(c), way, pol); break;
      case 1: graph_case("adjacency<1>", g, to_adj<1>(c), way, pol); break;
      case 2: graph_case("weighted adjacency", g, Make<adjacency<0, int>>::make(c), way, pol); break;
      case 3: graph_case("64-bit adjacency", g, Make<index_adjacency<0, u64, u64, double>>::make(c), way, pol); break;
      case 4: graph_case("16-bit adjacency", g, Make<index_adjacency<1, u16, u16>>::make(c), way, pol); break;
      default: graph_case("biadjacency", g, biadjacency<0>(g.n, c.idx, c.to), way, pol); break;
    }
  }
  if (g.e.size() >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C09", scenario, "a run counts when the graph has at least 3 edges and at least 2 preemptions happened inside the call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
