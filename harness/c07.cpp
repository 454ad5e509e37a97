// Construction of compressed graphs from edge lists: no edge lost, invented, duplicated or separated from its properties.
#include "nw.h"
#include <map>
using namespace h;
void typed_case(h::u32 ty, const h::Gr& g, h::u32 n0, h::u32 n1, bool sort, int pol, int way);
namespace {
using Ent = std::tuple<u32, u32, int, double>;   // row, neighbour, attributes

struct Opt { bool sort; int pol; int way; };

template <class Adj, int NA>
std::vector<std::vector<Ent>> rows(const Adj& a) {
  std::vector<std::vector<Ent>> r(a.size());
  for (u32 i = 0; i < a.size(); i++)
    for (auto&& e : a[i]) {
      if constexpr (NA == 0) r[i].push_back({i, std::get<0>(e), 0, 0});
      else r[i].push_back({i, std::get<0>(e), std::get<1>(e), std::get<2>(e)});
    }
  return r;
}
template <class Adj, int NA>
void check(const char* what, const Adj& a, u32 n, const std::vector<Ent>& want_, bool sorted) {
  sim::Quiet q;
  if (a.indices_.size() != n + 1 || a.size() != n || (u32)(a.end() - a.begin()) != n)
    sim::violation("construction", "%s: %zu rows (%zu index entries, %ld by iteration) for %u vertices", what, (std::size_t)a.size(), a.indices_.size(), (long)(a.end() - a.begin()), n);
  if (a.indices_[0] != 0) sim::violation("construction", "%s: first row starts at %u", what, a.indices_[0]);
  for (u32 i = 0; i < n; i++) if (a.indices_[i] > a.indices_[i + 1]) sim::violation("construction", "%s: row %u ends before it starts", what, i);
  if (a.indices_[n] != want_.size() || a.to_be_indexed_.size() != want_.size())
    sim::violation("construction", "%s: %u entries in the rows, %zu stored, expected %zu", what, a.indices_[n], a.to_be_indexed_.size(), want_.size());
  if (a.num_edges() != want_.size()) sim::violation("construction", "%s: num_edges() is %u, expected %zu", what, (u32)a.num_edges(), want_.size());
  auto r = rows<Adj, NA>(a);
  std::vector<Ent> got, want = want_;
  for (auto& x : r) {
    if (sorted)
      for (std::size_t k = 1; k < x.size(); k++)
        if (std::get<1>(x[k - 1]) > std::get<1>(x[k])) sim::violation("construction", "%s: row %u was to be sorted: %u before %u", what, std::get<0>(x[k]), std::get<1>(x[k - 1]), std::get<1>(x[k]));
    got.insert(got.end(), x.begin(), x.end());
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (std::size_t k = 0; k < want.size(); k++)
    if (got[k] != want[k])
      sim::violation("construction", "%s: entry (%u, %u, %d, %g) where (%u, %u, %d, %g) is due", what, std::get<0>(got[k]), std::get<1>(got[k]), std::get<2>(got[k]), std::get<3>(got[k]), std::get<0>(want[k]), std::get<1>(want[k]), std::get<2>(want[k]), std::get<3>(want[k]));
}
template <class EL, int NA>
void fill_el(EL& el, const Gr& g) {
  el.open_for_push_back();
  int id = 0;
  for (auto& a : g.e) {
    id++;
    if constexpr (NA == 0) el.push_back(a.u, a.v);
    else el.push_back(a.u, a.v, id, id * 0.5);
  }
  el.close_for_push_back();
}
std::vector<Ent> expect(const Gr& g, int idx, bool both, int na) {
  std::vector<Ent> w;
  int id = 0;
  for (auto& a : g.e) {
    id++;
    int i = na ? id : 0; double d = na ? id * 0.5 : 0;
    if (idx == 0 || both) w.push_back({a.u, a.v, i, d});
    if (idx == 1 || both) w.push_back({a.v, a.u, i, d});
  }
  return w;
}
template <class EL, int NA>
void unchanged(const char* what, EL& el, const Gr& g) {
  sim::Quiet q;
  if (el.size() != g.e.size()) sim::violation("construction", "%s: the edge list has %zu edges afterwards, %zu before", what, el.size(), g.e.size());
  for (std::size_t k = 0; k < g.e.size(); k++) {
    auto&& e = el[k];
    bool ok = std::get<0>(e) == g.e[k].u && std::get<1>(e) == g.e[k].v;
    if constexpr (NA != 0) ok = ok && std::get<2>(e) == (int)k + 1;
    if (!ok) sim::violation("construction", "%s: edge %zu of the edge list changed", what, k);
  }
}
template <directedness D, int idx, class... Attr>
void uni(const Gr& g, Opt o) {
  constexpr int NA = sizeof...(Attr);
  using EL = edge_list<D, Attr...>;
  using Adj = adjacency<idx, Attr...>;
  EL el(g.n);
  fill_el<EL, NA>(el, g);
  static const char* ways[] = {"adjacency(edges)", "adjacency(n, edges)", "fill", "push_back_fill", "make_adjacency(edges, n)", "make_adjacency(edges)"};
  if (NA && o.way > 3) o.way = 0;
  bool both = D == directedness::undirected;
  if (o.way == 3 && (both || idx != 0)) o.way = 0;   // push_back_fill lists edges as they are
  if (o.way == 3) {   // rows must come in order
    std::stable_sort(const_cast<Gr&>(g).e.begin(), const_cast<Gr&>(g).e.end(), [](auto& a, auto& b) { return a.u < b.u; });
    EL e2(g.n);
    fill_el<EL, NA>(e2, g);
    el = e2;
  }
  u32 rows_ = g.n;
  if ((o.way == 1 || o.way == 2 || o.way == 4) && sim::wlp(50)) rows_ += 1 + (u32)sim::wl(5);   // more rows than the list has vertices
  sim::note("%s<%d>, %s, %d attributes, sort %d policy %d", ways[o.way], idx, both ? "undirected" : "directed", NA, o.sort, o.pol);
  Adj a(0);
  sim::run([&] {
    switch (o.way) {
      case 0:
        if (o.pol == 1) a = Adj(el, o.sort, std::execution::par);
        else if (o.pol == 2) a = Adj(el, o.sort, std::execution::seq);
        else a = Adj(el, o.sort);
        break;
      case 1:
        if (o.pol == 1) a = Adj(rows_, el, o.sort, std::execution::par);
        else a = Adj(rows_, el, o.sort);
        break;
      case 2:
        a = Adj(rows_);
        if (o.pol == 1) fill<idx>(el, a, o.sort, std::execution::par);
        else if (o.pol == 2) fill<idx>(el, a, D, o.sort);
        else fill<idx>(el, a, o.sort);
        break;
      case 4: if constexpr (NA == 0) a = make_adjacency<idx>(el, rows_, D); break;
      case 5: if constexpr (NA == 0) a = make_adjacency<idx>(el); break;
      default: a = Adj(g.n); push_back_fill(el, a); break;
    }
  });
  sim::probe(ways[o.way]);
  check<Adj, NA>(ways[o.way], a, rows_, expect(g, idx, both, NA), o.sort && o.way < 3);
  unchanged<EL, NA>(ways[o.way], el, g);
  if (a.num_vertices()[0] != rows_ || num_vertices(a) != rows_) sim::violation("construction", "num_vertices is %u, expected %u", (u32)a.num_vertices()[0], rows_);
}
// Graphs made from index and column arrays, and graphs grown edge by edge.
template <bool BI, class... Attr>
void direct(const Gr& g_, u32 n1) {
  constexpr int NA = sizeof...(Attr);
  using Adj = std::conditional_t<BI, biadjacency<0, Attr...>, adjacency<0, Attr...>>;
  Gr g = g_;
  std::stable_sort(g.e.begin(), g.e.end(), [](auto& a, auto& b) { return a.u < b.u; });
  std::vector<u32> idx(g.n + 1), first;
  std::tuple<std::vector<u32>, std::vector<Attr>...> cols;
  int id = 0;
  for (auto& a : g.e) {
    id++;
    idx[a.u + 1]++;
    std::get<0>(cols).push_back(a.v);
    if constexpr (NA != 0) { std::get<1>(cols).push_back(id); std::get<2>(cols).push_back(id * 0.5); }
  }
  for (u32 i = 0; i < g.n; i++) idx[i + 1] += idx[i];
  static const char* ways[] = {"arrays copied", "arrays moved", "tuple of arrays copied", "tuple of arrays moved", "copy(arrays)", "copy(tuple)", "move(arrays)", "move(tuple)", "push_back of growing rows", "push_back", "empty"};
  int way = (int)sim::wl(11);
  sim::note("%s from %s, %d attributes", BI ? "biadjacency" : "adjacency", ways[way], NA);
  sim::probe(ways[way]);
  auto keep_idx = idx;
  auto keep = cols;
  u32 rows_ = g.n;
  auto want = expect(g, 0, false, NA);
  bool copied = false;
  std::vector<std::size_t> card;
  sim::run([&] {
    auto mk = [&](auto&&... a) {
      if constexpr (BI) return Adj((std::size_t)n1, std::forward<decltype(a)>(a)...);
      else return Adj(std::forward<decltype(a)>(a)...);
    };
    auto empty = [&](std::size_t n) {
      if constexpr (BI) return Adj(n, (std::size_t)n1);
      else return Adj(n);
    };
    Adj a;
    {
      sim::Quiet q;
      if (a.size() != 0 || a.num_edges() != 0 || a.begin() != a.end()) sim::violation("construction", "a new graph has %zu vertices and %zu edges", (std::size_t)a.size(), (std::size_t)a.num_edges());
    }
    bool pre = way >= 4 && way < 8 && sim::wlp(50);   // overwrite a graph that holds something
    if (pre) a = std::apply([&](auto&... c) { return mk(std::as_const(idx), std::as_const(c)...); }, cols);
    switch (way) {
      case 0: a = std::apply([&](auto&... c) { return mk(std::as_const(idx), std::as_const(c)...); }, cols); copied = true; break;
      case 1: a = std::apply([&](auto&... c) { return mk(std::move(idx), std::move(c)...); }, cols); break;
      case 2: a = mk(std::as_const(idx), std::as_const(cols)); copied = true; break;
      case 3: a = mk(std::move(idx), std::move(cols)); break;
      case 4: std::apply([&](auto&... c) { a.copy(idx, c...); }, cols); copied = true; break;
      case 5: a.copy(idx, cols); copied = true; break;
      case 6: std::apply([&](auto&... c) { a.move(std::move(idx), std::move(c)...); }, cols); break;
      case 7: a.move(std::move(idx), std::move(cols)); break;
      case 8: case 9: {
        a = empty(way == 8 ? sim::wl(g.n) : g.n);
        a.open_for_push_back();
        for (std::size_t k = 0; k < g.e.size(); k++) {
          if constexpr (NA == 0) a.push_back(g.e[k].u, g.e[k].v);
          else a.push_back(g.e[k].u, g.e[k].v, (int)k + 1, (k + 1) * 0.5);
        }
        a.close_for_push_back();
        sim::Quiet q;
        if (way == 8) {   // a row exists when it was declared or something was pushed to it
          rows_ = (u32)a.size();
          u32 top = g.e.empty() ? 0 : g.e.back().u + 1;
          if (rows_ < top || rows_ > g.n) sim::violation("construction", "%u rows after pushing back edges of %u rows", rows_, top);
        }
      } break;
      default: a = empty(g.n); want.clear();
    }
    sim::Quiet q;
    std::string w = ways[way];
    if (a.size() != rows_) sim::violation("construction", "%s: %zu rows for %u vertices", ways[way], (std::size_t)a.size(), rows_);
    if (way < 10) check<Adj, NA>(ways[way], a, rows_, want, false);
    else {
      if (a.num_edges() != 0) sim::violation("construction", "a graph without edges has %zu", (std::size_t)a.num_edges());
      for (u32 i = 0; i < g.n; i++) if (a.indices_[i] != 0) sim::violation("construction", "row %u of an empty graph starts at %u", i, a.indices_[i]);
    }
    if (way != 8) {
      if constexpr (BI) {
        auto c = a.num_vertices();
        if (way < 4 && (c[0] != g.n || c[1] != n1)) sim::violation("construction", "%s: num_vertices %zu, %zu for partitions %u, %u", ways[way], c[0], c[1], g.n, n1);
      } else if (a.num_vertices()[0] != rows_) sim::violation("construction", "%s: num_vertices %u, expected %u", ways[way], (u32)a.num_vertices()[0], rows_);
    }
    for (std::size_t k = 0; way < 10 && way != 8 && k < g.e.size(); k++)   // edges keep their places and know their source
      if (a.source(k) != g.e[k].u || std::get<0>(a.to_be_indexed_[k]) != g.e[k].v)
        sim::violation("construction", "%s: entry %zu is (%u, %u), expected (%u, %u)", ways[way], k, (u32)a.source(k), (u32)std::get<0>(a.to_be_indexed_[k]), g.e[k].u, g.e[k].v);
    if (copied && (idx != keep_idx || cols != keep)) sim::violation("construction", "%s: the arrays copied from changed", ways[way]);
  });
}
template <int idx, class... Attr>
void bi(const Gr& g, u32 n0, u32 n1, Opt o) {
  constexpr int NA = sizeof...(Attr);
  using EL = bi_edge_list<directedness::directed, Attr...>;
  using Adj = biadjacency<idx, Attr...>;
  EL el(n0, n1);
  fill_el<EL, NA>(el, g);
  sim::note("biadjacency<%d>, %u by %u, %d attributes, sort %d policy %d", idx, n0, n1, NA, o.sort, o.pol);
  Adj a(0, 0);
  sim::run([&] {
    if constexpr (NA == 0) {
      if (o.way == 4) { o.sort = false; a = idx == 0 ? make_biadjacency<idx>(el, n0, n1) : make_biadjacency<idx>(el, n1, n0); return; }
      if (o.way == 5) { o.sort = false; a = make_biadjacency<idx>(el); return; }
    }
    if (o.pol == 1) a = Adj(el, o.sort, std::execution::par);
    else if (o.pol == 2) a = Adj(el, o.sort, std::execution::seq);
    else a = Adj(el, o.sort);
  });
  sim::probe("biadjacency");
  check<Adj, NA>("biadjacency", a, idx == 0 ? n0 : n1, expect(g, idx, false, NA), o.sort);
  unchanged<EL, NA>("biadjacency", el, g);
  auto c = a.num_vertices();
  if (c[0] != (idx == 0 ? n0 : n1) || c[1] != (idx == 0 ? n1 : n0)) sim::violation("construction", "biadjacency<%d>: num_vertices %zu, %zu for partitions %u, %u", idx, c[0], c[1], n0, n1);
}
void scenario(int tier) {
  GenOpts o;
  o.huge = 2;
  o.small = 10; o.medium = 40; o.large = 400;
  if (tier) o.large = 600;
  Gr g = gen_graph(o);
  Opt opt{sim::wlp(50), (int)sim::wl(3), (int)sim::wl(6)};
  u32 kind = (u32)sim::wl(15);
  bool attrs = sim::wl(2);
  u32 n0 = g.n, n1 = g.n;
  if (kind == 11) n1 = g.n + (u32)sim::wl(10);
  u32 ty = kind >= 12 ? (u32)sim::wl(9) : 0;
  if (kind == 8 || kind == 9 || ty >= 6) {   // two partitions of their own sizes
    n0 = 1 + (u32)sim::wl(g.n); n1 = 1 + (u32)sim::wl(g.n);
    for (auto& a : g.e) { a.u %= n0; a.v %= n1; }
  }
  note_graph(g);
  if (kind >= 12) {
    if (g.e.size() > 30000 || n0 > 60000 || n1 > 60000) ty = ty == 3 || ty == 4 ? 5 : ty == 8 ? 7 : ty;   // 16 bits would not do
    typed_case(ty, g, n0, n1, opt.sort, opt.pol, opt.way);
    if (g.e.size() >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
    return;
  }
  auto pick = [&](auto dir) {
    constexpr directedness D = decltype(dir)::value;
    if (kind % 2 == 0) { if (attrs) uni<D, 0, int, double>(g, opt); else uni<D, 0>(g, opt); }
    else { if (attrs) uni<D, 1, int, double>(g, opt); else uni<D, 1>(g, opt); }
  };
  if (kind < 4) pick(std::integral_constant<directedness, directedness::directed>{});
  else if (kind < 8) pick(std::integral_constant<directedness, directedness::undirected>{});
  else if (kind >= 10) {
    if (kind == 10) { if (attrs) direct<false, int, double>(g, n1); else direct<false>(g, n1); }
    else { if (attrs) direct<true, int, double>(g, n1); else direct<true>(g, n1); }
    if (g.e.size() >= 3) sim::mark_nontrivial();
    return;
  }
  else if (kind == 8) { if (attrs) bi<0, int, double>(g, n0, n1, opt); else bi<0>(g, n0, n1, opt); }
  else { if (attrs) bi<1, int, double>(g, n0, n1, opt); else bi<1>(g, n0, n1, opt); }
  if (g.e.size() >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C07", scenario, "a run counts when there are at least 3 edges and, for parallel constructions, at least 2 preemptions happened inside; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
