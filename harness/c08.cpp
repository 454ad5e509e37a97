// Relabelling: permuting or relabelling vertices by degree gives an isomorphic graph, under the permutation returned.
#include "typed.h"
using namespace h;
namespace {
using Ent = std::tuple<u32, u32, int>;
template <class Adj>
std::vector<Ent> entries(const Adj& a) {
  std::vector<Ent> r;
  for (u32 i = 0; i < a.size(); i++)
    for (auto&& e : a[i]) {
      std::apply([&](const auto&... x) { std::tuple<std::decay_t<decltype(x)>...> t(x...); r.push_back({i, (u32)std::get<0>(t), (int)number_of<1>("relabel", t)}); }, e);
    }
  return r;
}
template <class V>
void is_perm(const char* what, const V& p, u32 n) {
  std::vector<char> seen(n);
  if (p.size() != n) sim::violation("relabel", "%s: the permutation has %zu entries for %u vertices", what, p.size(), n);
  for (auto x : p) {
    if (x >= n || seen[x]) sim::violation("relabel", "%s: %u %s", what, (u32)x, x >= n ? "is not a vertex" : "is given to two vertices");
    seen[x] = 1;
  }
}
void same(const char* what, std::vector<Ent> got, std::vector<Ent> want) {
  if (got.size() != want.size()) sim::violation("relabel", "%s: %zu entries, expected %zu", what, got.size(), want.size());
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (std::size_t k = 0; k < got.size(); k++)
    if (got[k] != want[k]) sim::violation("relabel", "%s: entry (%u, %u, %d) where (%u, %u, %d) is due", what, std::get<0>(got[k]), std::get<1>(got[k]), std::get<2>(got[k]), std::get<0>(want[k]), std::get<1>(want[k]), std::get<2>(want[k]));
}
template <class D>
void in_order(const char* what, const D& deg, bool desc) {
  for (std::size_t k = 1; k < deg.size(); k++)
    if (desc ? deg[k - 1] < deg[k] : deg[k - 1] > deg[k]) sim::violation("relabel", "%s: vertex %zu has degree %u, vertex %zu degree %u", what, k - 1, (u32)deg[k - 1], k, (u32)deg[k]);
}
// compressed graphs
template <class V, class... A>
void graph_case(const char* type, const Gr& g, int way, bool desc, int pol) {
  using Adj = index_adjacency<0, V, V, A...>;
  constexpr int NA = sizeof...(A);
  Csr c = csr(g, false, sim::wlp(50));
  Adj a = [&]<std::size_t... k>(std::index_sequence<k...>) {
    auto col = [&]<class B>(B*, std::size_t i) { std::vector<B> r; for (std::size_t e = 0; e < c.to.size(); e++) r.push_back(prop<B>(e + 1, i)); return r; };
    return Adj(std::vector<V>(c.idx.begin(), c.idx.end()), std::vector<V>(c.to.begin(), c.to.end()), col((A*)nullptr, k)...);
  }(std::index_sequence_for<A...>{});
  auto before = entries(a);
  static const char* ways[] = {"permute_by_degree", "sort_by_degree", "relabel_to_be_indexed", "sort_to_be_indexed"};
  const char* w = ways[way];
  sim::note("%s %s, adjacency with %s, policy %d", w, desc ? "descending" : "ascending", type, pol);
  sim::probe(type);
  sim::probe(w);
  std::string dir = desc ? "descending" : "ascending";
  std::vector<V> p(g.n);
  std::iota(p.begin(), p.end(), V(0));
  if (way == 2) for (u32 i = g.n; i > 1; i--) std::swap(p[i - 1], p[sim::wl(i)]);
  auto go = [&](auto policy) {
    switch (way) {
      case 0: p = a.permute_by_degree(dir, policy); break;
      case 1: a.sort_by_degree(dir, policy); break;
      case 2: a.relabel_to_be_indexed(p, policy); break;
      case 3: a.sort_to_be_indexed(policy); break;
    }
  };
  bool dflt = way == 0 && desc && pol == 2;
  sim::run([&] {
    if (dflt) p = a.permute_by_degree();
    else if (pol == 1) go(std::execution::par); else if (pol == 0) go(std::execution::par_unseq); else go(std::execution::seq);
  });
  sim::Quiet q;
  if (a.indices_.size() != g.n + 1 || a.indices_[0] != 0 || a.indices_[g.n] != a.to_be_indexed_.size()) sim::violation("relabel", "%s: the row index is broken", w);
  for (u32 i = 0; i < g.n; i++) if (a.indices_[i] > a.indices_[i + 1]) sim::violation("relabel", "%s: row %u ends before it starts", w, i);
  auto after = entries(a);
  std::vector<u32> deg(g.n);
  for (u32 i = 0; i < g.n; i++) deg[i] = a.indices_[i + 1] - a.indices_[i];
  if (way == 0) {
    is_perm(w, p, g.n);
    in_order(w, deg, desc);
    auto want = before;
    for (auto& e : want) std::get<0>(e) = p[std::get<0>(e)];   // rows move, contents stay
    same(w, after, want);
  } else if (way == 1) {
    in_order(w, deg, desc);
    // the permutation is not returned: recover it from the edge identities when there are attributes
    if (NA) {
      if (after.size() != before.size()) sim::violation("relabel", "%s: %zu entries, expected %zu", w, after.size(), before.size());
      std::vector<u32> m(g.n, NONE);
      std::vector<Ent> by(before.size() + 1, Ent{NONE, NONE, 0});
      for (auto& e : after) { int id = std::get<2>(e); if (id < 1 || id > (int)before.size() || std::get<0>(by[id]) != NONE) sim::violation("relabel", "%s: edge %d lost or duplicated", w, id); by[id] = e; }
      auto bind = [&](u32 v, u32 x) { if (m[v] != NONE && m[v] != x) sim::violation("relabel", "%s: vertex %u became both %u and %u", w, v, m[v], x); m[v] = x; };
      for (auto& e : before) { bind(std::get<0>(e), std::get<0>(by[std::get<2>(e)])); bind(std::get<1>(e), std::get<1>(by[std::get<2>(e)])); }
      std::vector<char> used(g.n);
      for (u32 v = 0; v < g.n; v++) if (m[v] != NONE) { if (used[m[v]]) sim::violation("relabel", "%s: two vertices became %u", w, m[v]); used[m[v]] = 1; }
    } else {
      // degree pairs and loops survive any relabelling
      std::vector<u32> od(g.n), di(g.n), dj(g.n);
      for (auto& e : before) { od[std::get<0>(e)]++; di[std::get<1>(e)]++; }
      for (auto& e : after) dj[std::get<1>(e)]++;
      std::vector<std::pair<u32, u32>> x, y;
      for (u32 v = 0; v < g.n; v++) { x.push_back({od[v], di[v]}); y.push_back({deg[v], dj[v]}); }
      std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      if (x != y) sim::violation("relabel", "%s: the degree sequence changed", w);
      std::vector<std::array<u32, 4>> ex, ey;
      for (auto& e : before) { u32 u = std::get<0>(e), v = std::get<1>(e); ex.push_back({od[u], di[u], od[v], di[v]}); }
      for (auto& e : after) { u32 u = std::get<0>(e), v = std::get<1>(e); ey.push_back({deg[u], dj[u], deg[v], dj[v]}); }
      std::sort(ex.begin(), ex.end()); std::sort(ey.begin(), ey.end());
      if (ex != ey) sim::violation("relabel", "%s: the edges no longer join vertices of the degrees they joined", w);
    }
  } else {
    auto want = before;
    for (auto& e : want) std::get<1>(e) = p[std::get<1>(e)];
    same(w, after, want);
  }
  if (way != 0)
    for (std::size_t k = 1; k < after.size(); k++)
      if (std::get<0>(after[k - 1]) == std::get<0>(after[k]) && std::get<1>(after[k - 1]) > std::get<1>(after[k])) sim::violation("relabel", "%s: row %u is not sorted", w, std::get<0>(after[k]));
}
// edge lists
template <class EL>
void fill_list(EL& el, const Gr& g) {
  el.open_for_push_back();
  u64 id = 0;
  for (auto& a : g.e) {
    elt_of<EL> e;
    std::get<0>(e) = a.u; std::get<1>(e) = a.v;
    set_props<2>(e, ++id);
    std::apply([&](auto... x) { el.push_back(x...); }, e);
  }
  el.close_for_push_back();
}
template <class V, directedness D, class... A>
void list_case(const char* type, const Gr& g, int way, bool desc, int pol) {
  using EL = index_edge_list<V, unipartite_graph_base, D, A...>;
  EL el(g.n);
  fill_list(el, g);
  static const char* ways[] = {"relabel_by_degree", "relabel_by_degree<0>", "relabel_by_degree<1>", "relabel", "perm_by_degree", "relabel_by_degree(degrees)"};
  const char* w = ways[way];
  sim::note("%s %s, %s edge list with %s, policy %d", w, desc ? "descending" : "ascending", D == directedness::directed ? "directed" : "undirected", type, pol);
  sim::probe(type);
  sim::probe(w);
  std::string dir = desc ? "descending" : "ascending";
  std::vector<V> p(g.n), given(g.n);
  std::iota(p.begin(), p.end(), V(0));
  if (way == 3) for (u32 i = g.n; i > 1; i--) std::swap(p[i - 1], p[sim::wl(i)]);
  if (way == 5) for (auto& x : given) x = (u32)sim::wl(5);
  bool have = true;
  sim::run([&] {
    switch (way) {
      case 0: relabel_by_degree(el, dir); have = false; break;
      case 1: p = relabel_by_degree<0>(el, dir); break;
      case 2: p = relabel_by_degree<1>(el, dir); break;
      case 3: p = pol == 1 ? relabel(el, p, std::execution::par) : relabel(el, p); break;
      case 4: p = perm_by_degree<0>(el, dir); break;
      case 5: p = relabel_by_degree<0>(el, dir, given); break;
    }
  });
  sim::Quiet q;
  std::vector<u32> d0(g.n), d1(g.n);
  for (auto& a : g.e) { d0[a.u]++; d1[a.v]++; }
  std::vector<u32> deg(g.n);
  for (u32 v = 0; v < g.n; v++) deg[v] = D == directedness::undirected ? d0[v] + d1[v] : way == 2 ? d1[v] : d0[v];
  if (way == 5) deg.assign(given.begin(), given.end());
  if (el.size() != g.e.size()) sim::violation("relabel", "%s: %zu edges, expected %zu", w, el.size(), g.e.size());
  if (way == 4) {
    is_perm(w, p, g.n);
    std::vector<u32> s(g.n);
    for (u32 i = 0; i < g.n; i++) s[i] = deg[p[i]];
    in_order(w, s, desc);
    std::iota(p.begin(), p.end(), V(0));
  } else if (have) {
    is_perm(w, p, g.n);
    if (way != 3) {
      std::vector<u32> s(g.n);
      for (u32 v = 0; v < g.n; v++) s[p[v]] = deg[v];
      in_order(w, s, desc);
    }
  } else {
    std::vector<u32> m(g.n, NONE);
    auto bind = [&](u32 v, u32 x) { if (x >= g.n || (m[v] != NONE && m[v] != x)) sim::violation("relabel", "%s: vertex %u became both %u and %u", w, v, m[v], x); m[v] = x; };
    for (std::size_t k = 0; k < g.e.size(); k++) { bind(g.e[k].u, std::get<0>(el[k])); bind(g.e[k].v, std::get<1>(el[k])); }
    std::vector<u32> s(g.n, NONE);
    for (u32 v = 0; v < g.n; v++) if (m[v] != NONE) { if (s[m[v]] != NONE) sim::violation("relabel", "%s: two vertices became %u", w, m[v]); s[m[v]] = deg[v]; }
    std::vector<u32> t;
    for (auto x : s) if (x != NONE) t.push_back(x);
    in_order(w, t, desc);
    for (u32 v = 0; v < g.n; v++) p[v] = (V)m[v];   // vertices without edges are not looked at again
  }
  for (std::size_t k = 0; k < g.e.size(); k++) {
    elt_of<EL> e = el[k];
    u32 u = std::get<0>(e), v = std::get<1>(e);
    bool ok = u == p[g.e[k].u] && v == p[g.e[k].v];
    if (sizeof...(A)) ok = ok && number_of<2>("relabel", e) == k + 1;
    if (!ok) sim::violation("relabel", "%s: edge %zu became %u-%u, should be %u-%u", w, k, u, v, (u32)p[g.e[k].u], (u32)p[g.e[k].v]);
  }
}
// one side of a bipartite list
template <class V, directedness D, int idx, class... A>
void bipartite_case(const char* type, Gr g, bool permuting, bool desc, int pol) {
  using EL = index_edge_list<V, bipartite_graph_base, D, A...>;
  u32 n0 = 1 + (u32)sim::wl(g.n), n1 = 1 + (u32)sim::wl(g.n);
  for (auto& a : g.e) { a.u %= n0; a.v %= n1; }
  EL el(n0, n1);
  fill_list(el, g);
  u32 n = idx ? n1 : n0;
  const char* w = permuting ? "relabel<side>" : "perm_by_degree<side>";
  std::string dir = desc ? "descending" : "ascending";
  sim::note("%s %s, side %d, %s, policy %d", w, permuting ? "" : dir.c_str(), idx, type, pol);
  sim::probe(w);
  std::vector<V> p(n);
  std::iota(p.begin(), p.end(), V(0));
  if (permuting) for (u32 i = n; i > 1; i--) std::swap(p[i - 1], p[sim::wl(i)]);
  std::vector<V> r;
  sim::run([&] {
    if (!permuting) r = perm_by_degree<idx>(el, dir);
    else if (pol == 1) r = relabel<idx>(el, p, std::execution::par);
    else r = relabel<idx>(el, p);
  });
  sim::Quiet q;
  is_perm(w, r, n);
  std::vector<u32> deg(n), s(n);
  for (auto& a : g.e) deg[idx ? a.v : a.u]++;
  if (!permuting) {
    for (u32 i = 0; i < n; i++) s[i] = deg[r[i]];
    in_order(w, s, desc);
  } else {
    for (u32 i = 0; i < n; i++) if (r[p[i]] != i) sim::violation("relabel", "%s: vertex %u becomes %u, should be %u", w, (u32)p[i], (u32)r[p[i]], i);
  }
  if (el.size() != g.e.size()) sim::violation("relabel", "%s: %zu edges, expected %zu", w, el.size(), g.e.size());
  for (std::size_t k = 0; k < g.e.size(); k++) {
    elt_of<EL> e = el[k];
    u32 u = g.e[k].u, v = g.e[k].v;
    if (permuting) { if (idx) v = r[v]; else u = r[u]; }
    if (std::get<0>(e) != u || std::get<1>(e) != v || (sizeof...(A) && number_of<2>("relabel", e) != k + 1)) sim::violation("relabel", "%s: edge %zu became %u-%u, should be %u-%u", w, k, (u32)std::get<0>(e), (u32)std::get<1>(e), u, v);
  }
}
void scenario(int tier) {
  GenOpts o;
  o.small = 10; o.medium = 60; o.large = tier ? 1200 : 700;
  o.huge = 1;
  Gr g = gen_graph(o);
  bool desc = sim::wl(2);
  int pol = (int)sim::wl(3);
  note_graph(g);
  constexpr auto dir = directedness::directed, und = directedness::undirected;
  u32 kind = (u32)sim::wl(12);
  if (kind < 6) {
    static const int pick[] = {0, 0, 0, 1, 1, 2, 3};
    int way = pick[sim::wl(7)];
    switch (sim::wl(6)) {
      case 0: case 1: graph_case<u32, int>("an int", g, way, desc, pol); break;
      case 2: case 3: graph_case<u32>("no properties", g, way, desc, pol); break;
      case 4: graph_case<u64, std::string, double>("64-bit ids, text and double", g, way, desc, pol); break;
      default: graph_case<u16, float, unsigned char>("16-bit ids, float and byte", g, way, desc, pol); break;
    }
  } else if (kind < 11) {
    int way = (int)sim::wl(6);
    switch (sim::wl(7)) {
      case 0: list_case<u32, dir, int>("an int", g, way, desc, pol); break;
      case 1: list_case<u32, dir>("no properties", g, way, desc, pol); break;
      case 2: list_case<u32, und, int>("an int", g, way, desc, pol); break;
      case 3: list_case<u32, und>("no properties", g, way, desc, pol); break;
      case 4: list_case<u64, dir, double, std::string>("64-bit ids, double and text", g, way, desc, pol); break;
      case 5: list_case<u16, und, u64, unsigned char>("16-bit ids, 64-bit and byte", g, way, desc, pol); break;
      default: list_case<u64, und>("64-bit ids", g, way, desc, pol); break;
    }
  } else {
    bool permuting = sim::wl(2);
    switch (sim::wl(4)) {
      case 0: bipartite_case<u32, dir, 0>("bipartite", g, permuting, desc, pol); break;
      case 1: bipartite_case<u32, dir, 1, std::string>("bipartite with text", g, permuting, desc, pol); break;
      case 2: bipartite_case<u64, dir, 1, int>("bipartite, 64-bit ids, an int", g, permuting, desc, pol); break;
      default: bipartite_case<u16, und, 0, int>("undirected bipartite, 16-bit ids, an int", g, permuting, desc, pol); break;
    }
  }
  if (g.e.size() >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C08", scenario, "a run counts when the graph has at least 3 edges and at least 2 preemptions happened inside the call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
