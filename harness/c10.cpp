// Edge-list transformations: triangular swap, sorting, duplicate and loop removal, equality.
#include "typed.h"
using namespace h;
namespace {
using Ent = std::tuple<u64, u64, int>;
using EL  = edge_list<directedness::undirected, int>;
using ELD = edge_list<directedness::directed>;
using ELT = index_edge_list<u64, unipartite_graph_base, directedness::directed, std::string, double>;
using ELH = index_edge_list<std::uint16_t, unipartite_graph_base, directedness::undirected, unsigned char, u64>;
template <class L> constexpr std::size_t columns = std::tuple_size_v<elt_of<L>>;
template <class L>
std::vector<Ent> read(L& el) {
  std::vector<Ent> r;
  for (std::size_t k = 0; k < el.size(); k++) {
    elt_of<L> e = el[k];
    r.push_back({std::get<0>(e), std::get<1>(e), (int)number_of<2>("edges", e)});
  }
  return r;
}
// except: the edge with one property (which column) not its own
template <class L>
L build(const Gr& g, std::size_t except = ~0ul, u32 column = 0) {
  L el(g.n);
  el.open_for_push_back();
  for (std::size_t k = 0; k < g.e.size(); k++) {
    elt_of<L> e;
    std::get<0>(e) = g.e[k].u;
    std::get<1>(e) = g.e[k].v;
    set_props<2>(e, g.e[k].w);
    if constexpr (columns<L> > 2) if (k == except) {
      auto f = e;
      set_props<2>(f, g.e[k].w + 1);
      if constexpr (columns<L> > 3) { if (column) std::get<3>(e) = std::get<3>(f); else std::get<2>(e) = std::get<2>(f); }
      else std::get<2>(e) = std::get<2>(f);
    }
    std::apply([&](auto... x) { el.push_back(x...); }, e);
  }
  el.close_for_push_back();
  return el;
}
void same(const char* w, const std::vector<Ent>& got, const std::vector<Ent>& want) {
  if (got.size() != want.size()) sim::violation("edges", "%s: %zu edges, expected %zu", w, got.size(), want.size());
  for (std::size_t k = 0; k < got.size(); k++)
    if (got[k] != want[k]) sim::violation("edges", "%s: edge %zu is (%u, %u, %d), expected (%u, %u, %d)", w, k, (u32)std::get<0>(got[k]), (u32)std::get<1>(got[k]), std::get<2>(got[k]), (u32)std::get<0>(want[k]), (u32)std::get<1>(want[k]), std::get<2>(want[k]));
}
void bag(const char* w, std::vector<Ent> got, std::vector<Ent> want) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  same(w, got, want);
}
u64 key(const Ent& e, int i) { return i ? std::get<1>(e) : std::get<0>(e); }
template <class L>
void one(const Gr& g, int way, int idx, int pol) {
  static const char* ways[] = {"swap_to_triangular", "sort_by", "stable_sort_by", "lexical_sort_by", "lexical_stable_sort_by", "uniq", "remove_self_loops", "triangular pipeline", "equality"};
  const char* w = ways[way];
  sim::probe(w);
  L el = build<L>(g);
  auto before = read(el);
  bool succ = sim::wl(2);
  int form = (int)sim::wl(3);
  sim::note("%s<%d>, policy %d, %s", w, idx, pol, succ ? "successor" : "predecessor");
  auto swap = [&](auto& policy) {
    const std::string name = succ ? "successor" : "predecessor";
    const succession  how  = succ ? succession::successor : succession::predecessor;
    if (form == 0) { if (idx == 0) swap_to_triangular<0>(el, name); else swap_to_triangular<1>(el, name); }
    else if (form == 1) { if (idx == 0) swap_to_triangular<0>(el, how); else swap_to_triangular<1>(el, how); }
    else if (idx == 0) { if (succ) swap_to_triangular<0, L, succession::successor>(el, policy); else swap_to_triangular<0, L, succession::predecessor>(el, policy); }
    else { if (succ) swap_to_triangular<1, L, succession::successor>(el, policy); else swap_to_triangular<1, L, succession::predecessor>(el, policy); }
  };
  bool eq = false, want_eq = false;
  L other(g.n);
  if (way == 5) {   // duplicates must be adjacent
    auto t = g;
    std::stable_sort(t.e.begin(), t.e.end(), [](auto& a, auto& b) { return std::tie(a.u, a.v) < std::tie(b.u, b.v); });
    el = build<L>(t);
    before = read(el);
  }
  if (way == 8) {
    Gr t = g;
    static const char* hows[] = {"the same", "another first end", "another second end", "one edge less", "one edge more", "another property", "two edges in the other order"};
    int how = (int)sim::wl(7);
    std::size_t k = t.e.empty() ? 0 : sim::wl(t.e.size()), alter = ~0ul;
    u32 column = (u32)sim::wl(2);
    if (!t.e.empty()) {
      if (how == 1) t.e[k].u = (t.e[k].u + 1) % t.n;
      if (how == 2) t.e[k].v = (t.e[k].v + 1) % t.n;
      if (how == 3) t.e.pop_back();
      if (how == 5 && columns<L> > 2) alter = k;
      if (how == 6) std::swap(t.e[k], t.e[(k + 1) % t.e.size()]);
    }
    if (how == 4) t.e.push_back({0, 0, 1});
    sim::note("compared with: %s", hows[how]);
    other = build<L>(t, alter, column);
    if (alter != ~0ul) want_eq = false;
    else
    want_eq = read(other) == before;
  }
  auto go = [&](auto& policy) {
    switch (way) {
      case 0: swap(policy); break;
      case 1: if (idx) sort_by<1>(el, policy); else sort_by<0>(el, policy); break;
      case 2: if (idx) stable_sort_by<1>(el, policy); else stable_sort_by<0>(el, policy); break;
      case 3: if (idx) lexical_sort_by<1>(el, policy); else lexical_sort_by<0>(el, policy); break;
      case 4: if (idx) lexical_stable_sort_by<1>(el, policy); else lexical_stable_sort_by<0>(el, policy); break;
      case 5: uniq(el, policy); break;
      case 6: remove_self_loops(el); break;
      case 7: swap(policy); if (idx) lexical_sort_by<1>(el, policy); else lexical_sort_by<0>(el, policy); uniq(el, policy); remove_self_loops(el); break;
      case 8: eq = el == other; if ((el != other) == eq) sim::violation("edges", "== and != agree"); break;
    }
  };
  sim::run([&] { if (pol == 1) go(std::execution::par); else if (pol == 2) go(std::execution::seq); else go(std::execution::par_unseq); });
  sim::Quiet q;
  auto after = read(el);
  auto tri = [&](std::vector<Ent> v) {
    bool greater_first = (idx == 0) == !succ;    // idx 0 with predecessors: the larger end comes first
    for (auto& e : v) { u64 &a = std::get<0>(e), &b = std::get<1>(e); if (greater_first ? a < b : b < a) std::swap(a, b); }
    return v;
  };
  switch (way) {
    case 0: same(w, after, tri(before)); break;
    case 1: case 2: case 3: case 4: {
      bag(w, after, before);
      for (std::size_t k = 1; k < after.size(); k++) {
        auto x = std::make_tuple(key(after[k - 1], idx), key(after[k - 1], 1 - idx)), y = std::make_tuple(key(after[k], idx), key(after[k], 1 - idx));
        if (way <= 2 ? std::get<0>(x) > std::get<0>(y) : x > y) sim::violation("edges", "%s<%d>: edge %zu is out of order", w, idx, k);
        bool stable = way == 2 || way == 4;
        if (stable && columns<L> > 2 && (way == 2 ? std::get<0>(x) == std::get<0>(y) : x == y) && std::get<2>(after[k - 1]) > std::get<2>(after[k])) sim::violation("edges", "%s<%d>: edges %d and %d changed order", w, idx, std::get<2>(after[k]), std::get<2>(after[k - 1]));
      }
    } break;
    case 5: {
      std::vector<Ent> want;
      for (auto& e : before) if (want.empty() || std::get<0>(want.back()) != std::get<0>(e) || std::get<1>(want.back()) != std::get<1>(e)) want.push_back(e);
      same(w, after, want);
    } break;
    case 6: {
      std::vector<Ent> want;
      for (auto& e : before) if (std::get<0>(e) != std::get<1>(e)) want.push_back(e);
      same(w, after, want);
    } break;
    case 7: {
      auto t = tri(before);
      std::set<std::pair<u64, u64>> pairs;
      std::set<Ent> legal(t.begin(), t.end());
      for (auto& e : t) if (std::get<0>(e) != std::get<1>(e)) pairs.insert({key(e, idx), key(e, 1 - idx)});
      std::vector<std::pair<u64, u64>> got;
      for (auto& e : after) { got.push_back({key(e, idx), key(e, 1 - idx)}); if (!legal.count(e)) sim::violation("edges", "%s: edge (%u, %u, %d) does not come from the list", w, (u32)std::get<0>(e), (u32)std::get<1>(e), std::get<2>(e)); }
      if (got != std::vector<std::pair<u64, u64>>(pairs.begin(), pairs.end())) sim::violation("edges", "%s: the result is not the sorted set of distinct edges (%zu of %zu)", w, got.size(), pairs.size());
    } break;
    case 8:
      same(w, after, before);
      if (eq != want_eq) sim::violation("edges", "edge lists of %zu and %zu edges compare %s", el.size(), other.size(), eq ? "equal" : "different");
      break;
  }
}
void scenario(int tier) {
  GenOpts o;
  o.small = 10; o.medium = 60; o.large = tier ? 1200 : 700;
  o.huge = 1;
  Gr g = gen_graph(o);
  note_graph(g);
  int way = (int)sim::wl(9), idx = (int)sim::wl(2), pol = (int)sim::wl(3);
  for (u32 k = 0; k < g.e.size(); k++) g.e[k].w = k + 1;
  u32 ty = (u32)sim::wl(10);
  if (ty < 4) one<EL>(g, way, idx, pol);
  else if (ty < 7) one<ELD>(g, way, idx, pol);
  else if (ty < 9) { sim::probe("64-bit ids, text and double"); one<ELT>(g, way, idx, pol); }
  else { sim::probe("16-bit ids, byte and 64-bit"); one<ELH>(g, way, idx, pol); }
  if (g.e.size() >= 3 && sim::preemptions() >= 2) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C10", scenario, "a run counts when the list has at least 3 edges and at least 2 preemptions happened inside the call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
