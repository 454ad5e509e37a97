// Construction of compressed graphs over other vertex id types and property types, text included.
#include "nw.h"
#include <string>
using namespace h;
namespace {
struct Opt { bool sort; int pol; int way; };
// Other id types and property types: every property is a value of its own, text included.
template <class A>
A attr_of_edge(u32 id, u32 col) {
  if constexpr (std::is_same_v<A, std::string>) return "edge " + std::to_string(id) + (id % 3 ? "" : " with a name too long to be kept inside") + std::string(1, (char)('a' + col));
  else return (A)(id * (col + 1) + col);
}
template <class... Attr, std::size_t... k>
std::tuple<Attr...> attrs_of_edge(u32 id, std::index_sequence<k...>) { return {attr_of_edge<Attr>(id, k)...}; }
template <bool BI, class V, directedness D, int idx, class... Attr>
void typed(const char* types, const Gr& g, u32 n0, u32 n1, Opt o) {
  using EL  = index_edge_list<V, std::conditional_t<BI, bipartite_graph_base, unipartite_graph_base>, D, Attr...>;
  using Adj = std::conditional_t<BI, index_biadjacency<idx, V, V, Attr...>, index_adjacency<idx, V, V, Attr...>>;
  using E   = std::tuple<V, V, Attr...>;
  auto mk = [&] { if constexpr (BI) return EL(n0, n1); else return EL(n0); };
  auto ids = std::index_sequence_for<Attr...>{};
  EL el = mk();
  el.open_for_push_back();
  std::vector<E> want, before;
  for (u32 k = 0; k < g.e.size(); k++) {
    auto at = attrs_of_edge<Attr...>(k + 1, ids);
    std::apply([&](auto... x) { el.push_back(g.e[k].u, g.e[k].v, x...); }, at);
    E f = std::tuple_cat(std::tuple<V, V>(g.e[k].u, g.e[k].v), at), b = std::tuple_cat(std::tuple<V, V>(g.e[k].v, g.e[k].u), at);
    before.push_back(f);
    if (idx == 0 || D == directedness::undirected) want.push_back(f);
    if (idx == 1 || D == directedness::undirected) want.push_back(b);
  }
  el.close_for_push_back();
  std::sort(want.begin(), want.end());
  sim::note("%s<%d>, %s, %s, sort %d policy %d way %d", BI ? "biadjacency" : "adjacency", idx, types, D == directedness::undirected ? "undirected" : "directed", o.sort, o.pol, o.way);
  sim::probe(types);
  auto mka = [&](auto&&... x) { if constexpr (BI) return Adj(0, 0); else return Adj(0); };
  Adj a = mka();
  u32 n = BI && idx == 1 ? n1 : n0;
  sim::run([&] {
    if constexpr (!BI) if (o.way == 2) {
      a = Adj(n0);
      if (o.pol == 1) fill<idx>(el, a, o.sort, std::execution::par); else fill<idx>(el, a, o.sort);
      return;
    }
    if (o.pol == 1) a = Adj(el, o.sort, std::execution::par);
    else if (o.pol == 2) a = Adj(el, o.sort, std::execution::seq);
    else a = Adj(el, o.sort);
  });
  sim::Quiet q;
  std::vector<E> got;
  if (a.size() != n) sim::violation("construction", "%s: %zu rows for %u vertices", types, (std::size_t)a.size(), n);
  V u = 0;
  for (auto&& row : a) {
    bool first = true;
    V last = 0;
    for (auto&& e : row) {
      V t = std::get<0>(e);
      if (!first && o.sort && t < last) sim::violation("construction", "%s: a row was to be sorted", types);
      first = false; last = t;
      got.push_back(std::tuple_cat(std::tuple<V>(u), std::remove_cvref_t<decltype(std::apply([](auto&&... y) { return std::make_tuple(y...); }, e))>(e)));
    }
    u++;
  }
  std::sort(got.begin(), got.end());
  if (got.size() != want.size() || a.num_edges() != want.size()) sim::violation("construction", "%s: %zu entries (num_edges %zu), expected %zu", types, got.size(), (std::size_t)a.num_edges(), want.size());
  for (std::size_t k = 0; k < got.size(); k++)
    if (got[k] != want[k]) sim::violation("construction", "%s: an entry (%llu, %llu) with other ends or properties than (%llu, %llu)", types, (unsigned long long)std::get<0>(got[k]), (unsigned long long)std::get<1>(got[k]), (unsigned long long)std::get<0>(want[k]), (unsigned long long)std::get<1>(want[k]));
  if (el.size() != before.size()) sim::violation("construction", "%s: the edge list has %zu edges afterwards", types, el.size());
  for (std::size_t k = 0; k < before.size(); k++) if (E(el[k]) != before[k]) sim::violation("construction", "%s: edge %zu of the edge list changed", types, k);
}
}
void typed_case(u32 ty, const Gr& g, u32 n0, u32 n1, bool sort, int pol, int way) {
    Opt opt{sort, pol, way};
    constexpr auto d = directedness::directed, u = directedness::undirected;
    switch (ty) {
      case 0: typed<false, u64, d, 0, std::string>("64-bit ids, text", g, n0, n0, opt); break;
      case 1: typed<false, u64, u, 0, float, u64, unsigned char>("64-bit ids, three properties", g, n0, n0, opt); break;
      case 2: typed<false, u32, u, 1, std::string, int>("text and int", g, n0, n0, opt); break;
      case 3: typed<false, std::uint16_t, d, 1, double>("16-bit ids, double", g, n0, n0, opt); break;
      case 4: typed<false, std::uint16_t, u, 0>("16-bit ids", g, n0, n0, opt); break;
      case 5: typed<false, u64, d, 1>("64-bit ids", g, n0, n0, opt); break;
      case 6: typed<true, u64, d, 0, std::string>("bipartite, 64-bit ids, text", g, n0, n1, opt); break;
      case 7: typed<true, u32, d, 1, float>("bipartite, float", g, n0, n1, opt); break;
      default: typed<true, std::uint16_t, d, 1, int, std::string>("bipartite, 16-bit ids, int and text", g, n0, n1, opt); break;
    }
}
