// A failing allocation while a graph is grown, copied, loaded or built: containers stay consistent, nothing is lost or leaked.
#include "io.h"
#include <new>
#include <optional>
#include <system_error>
using namespace h;
namespace {
std::uint64_t pick_k() {
  static const u32 spans[] = {2, 3, 6, 12, 40, 200};
  return sim::flt(spans[sim::flt(6)]);
}
// ---- growing
struct Grow {
  std::string kind;
  virtual ~Grow() = default;
  virtual void push(u32 u, u32 v, u32 k) = 0;
  virtual void resize(std::size_t n) = 0;
  virtual void reserve(std::size_t n) = 0;
  virtual void clear() = 0;
  virtual std::string bytes() const = 0;    // actual content
  virtual std::string model() const = 0;    // what it should be
};
template <class C, int what, class... A>   // what: 0 soa, 1 aos, 2 uni edge list, 3 bi edge list, 4 compressed
struct GrowT : Grow {
  C c;
  std::vector<std::tuple<A...>> m;
  std::size_t n0 = 0, n1 = 0;
  bool tuple_form = false;
  GrowT() : c(make()) {}
  static C make() { if constexpr (what == 3) return C(0, 0); else if constexpr (what == 2 || what == 4) return C(0); else return C(); }
  void push(u32 u, u32 v, u32 k) override {
    std::tuple<A...> t;
    std::size_t i = 0;
    std::apply([&](auto&... x) { ((x = what >= 2 && i < 2 ? (std::decay_t<decltype(x)>)(i ? v : u) : attr_of2<std::decay_t<decltype(x)>>(u + v, k), i++), ...); }, t);
    if (k % 2) std::apply([&](auto... x) { c.push_back(x...); }, t);
    else c.push_back(t);
    sim::Quiet q;
    m.push_back(t);
    if (what == 2) n0 = std::max<std::size_t>(n0, std::max(u, v) + 1);
    if (what == 3) { n0 = std::max<std::size_t>(n0, u + 1); n1 = std::max<std::size_t>(n1, v + 1); }
  }
  template <class T>
  static T attr_of2(u32 w, u32 k) { return (T)(w * 3 + k % 50); }
  void resize(std::size_t n) override { c.resize(n); sim::Quiet q; m.resize(n); }
  void reserve(std::size_t n) override { c.reserve(n); }
  void clear() override { c.clear(); m.clear(); }
  std::string bytes() const override {
    std::string s;
    put_bytes(s, (u64)c.size());
    if constexpr (what == 2 || what == 3) for (auto x : c.num_vertices()) put_bytes(s, (u64)x);
    if constexpr (what != 1) {
      bool same = true;
      std::apply([&](auto&... v) { ((same &= v.size() == c.size()), ...); }, static_cast<const std::tuple<std::vector<A>...>&>(c));
      if (!same) return "columns of different lengths";
    }
    for (std::size_t k = 0; k < c.size(); k++) std::apply([&](auto&... x) { (put_bytes(s, x), ...); }, c[k]);
    return s;
  }
  std::string model() const override {
    std::string s;
    put_bytes(s, (u64)m.size());
    if (what == 2 || what == 3) put_bytes(s, (u64)n0);
    if (what == 3) put_bytes(s, (u64)n1);
    for (auto& t : m) std::apply([&](auto&... x) { (put_bytes(s, x), ...); }, t);
    return s;
  }
};
std::unique_ptr<Grow> make_grow(u32 k) {
  constexpr auto D = directedness::directed, U = directedness::undirected;
  auto named = [](Grow* g, const char* n) { std::unique_ptr<Grow> p(g); p->kind = n; return p; };
  switch (k) {
    case 0: return named(new GrowT<edge_list<D>, 2, u32, u32>, "edge_list<directed>");
    case 1: return named(new GrowT<edge_list<U, double>, 2, u32, u32, double>, "edge_list<undirected, double>");
    case 2: return named(new GrowT<edge_list<D, unsigned char, double>, 2, u32, u32, unsigned char, double>, "edge_list<directed, uchar, double>");
    case 3: return named(new GrowT<bi_edge_list<D, int>, 3, u32, u32, int>, "bi_edge_list<directed, int>");
    case 4: return named(new GrowT<struct_of_arrays<int, double>, 0, int, double>, "struct_of_arrays<int, double>");
    case 5: return named(new GrowT<struct_of_arrays<unsigned char, u64, float>, 0, unsigned char, u64, float>, "struct_of_arrays<uchar, u64, float>");
    default: return named(new GrowT<array_of_structs<int, double>, 1, int, double>, "array_of_structs<int, double>");
  }
}
bool grow(int tier) {
  bool nontrivial = false;
  auto g = make_grow((u32)sim::wl(7));
  u32 n = 4 + (u32)sim::wl(tier ? 300 : 120);
  sim::note("growing a %s, %u operations", g->kind.c_str(), n);
  sim::run([&] {
    for (u32 i = 0; i < n; i++) {
      u32 op = (u32)sim::wl(24), u = (u32)sim::wl(30), v = (u32)sim::wl(30);
      std::size_t sz = op == 20 || op == 21 ? sim::wl(80) : 0;
      bool fail = sim::fltp(30);
      std::string before;
      { sim::Quiet q; if (fail) before = g->model(); }
      const char* what = op < 20 ? "push_back" : op == 20 ? "resize" : op == 21 ? "reserve" : op == 22 ? "clear" : "push_back";
      if (fail) sim::arm_alloc_failure(1 + sim::flt(3));
      bool threw = false;
      try {
        if (op < 20 || op == 23) g->push(u, v, i);
        else if (op == 20) g->resize(sz);
        else if (op == 21) g->reserve(sz);
        else if (g->kind[0] == 's' || g->kind[0] == 'a') g->clear();
      } catch (const std::bad_alloc&) { threw = true; }
      bool fired = sim::alloc_failure_fired();
      sim::disarm_alloc_failure();
      if (fired) nontrivial = true;
      if (threw && !fired) sim::violation("spurious", "%s: %s threw bad_alloc although nothing had failed", g->kind.c_str(), what);
      sim::Quiet q;
      if (threw) {
        sim::probe("growth failed");
        if (g->bytes() != before) sim::violation("inconsistent", "%s: after a %s that ran out of memory it is not what it was before (operation %u): %s", g->kind.c_str(), what, i, g->bytes().size() < 60 ? g->bytes().c_str() : "other content");
      } else if (i % 16 == 0 || i + 1 == n || fired) {
        if (g->bytes() != g->model()) sim::violation("inconsistent", "%s: wrong content after %s (operation %u)", g->kind.c_str(), what, i);
      }
    }
  });
  return nontrivial;
}
// ---- whole-graph operations
bool whole(int tier) {
  using EL = edge_list<directedness::undirected, int>;
  using ELD = edge_list<directedness::directed, double>;
  using BEL = bi_edge_list<directedness::directed, int>;
  GenOpts o;
  o.small = 8; o.medium = 40; o.large = tier ? 300 : 120;
  o.huge = 1;
  o.maxw = 50;
  Gr g = gen_graph(o);
  note_graph(g, true);
  ElStore<EL, int> el;
  ElStore<ELD, double> eld;
  ElStore<BEL, int> bel;
  el.fill(g); eld.fill(g); bel.fill(g);
  std::string b1 = el.bytes(), b2 = eld.bytes(), b3 = bel.bytes();
  Gr both = g;   // an undirected list holds each edge once, its adjacency both ways
  for (auto& a : g.e) both.e.push_back({a.v, a.u, a.w});
  Csr cu = csr(both, false, false), cd = csr(g, false, false), ct = csr(g, true, false);
  int way = (int)sim::wl(12);
  bool sorted = sim::wl(2), par = sim::wl(3) != 0;
  static const char* ways[] = {"adjacency<0>(undirected)", "adjacency<1>(directed)", "biadjacency<0>", "copy of an edge list", "copy of a graph", "copy(arrays) into a graph", "load", "degrees", "swap_to_triangular", "lexical_sort_by", "relabel_by_degree", "reading Matrix Market"};
  if (way == 11) way = 6;
  sim::note("%s%s%s", ways[way], sorted ? ", sorted" : "", par ? ", parallel" : "");
  sim::probe(ways[way]);
  u64 k = pick_k();
  std::string problem;
  bool threw = false;
  const char* how = "returned";
  AdjStore<adjacency<0, double>, 1, double> ga, gb;
  ga.fill(g);
  Gr other = gen_graph(o);
  gb.fill(other);
  std::string ba = ga.bytes(), bb = gb.bytes();
  StoreP st = make_store((u32)sim::wl(NKINDS)), st2;
  std::string bs;
  if (way == 6) { sim::disk_reset(); st->fill(g); bs = st->bytes(); st2 = st->copy(); st2->fill(other); }
  u64 before = sim::live_blocks();
  auto rows = [&](auto& a, const Csr& c, std::size_t n, bool from_list) {
    // rows hold exactly their neighbours
    if (a.size() < n) { problem = "too few rows"; return; }
    for (std::size_t i = 0; i < n; i++) {
      std::vector<u32> x, y(c.to.begin() + c.idx[i], c.to.begin() + c.idx[i + 1]);
      for (auto&& e : a[i]) x.push_back(std::get<0>(e));
      std::sort(x.begin(), x.end());
      std::sort(y.begin(), y.end());
      if (x != y) { problem = "row " + std::to_string(i) + " is " + show(x) + ", expected " + show(y); return; }
    }
  };
  sim::allow_failstop(true);
  std::optional<EL> copy_el, tri;
  sim::run([&] {
    if (way == 6) st->save(std::string("/sim/x"));
    if (way >= 8) { sim::Quiet q; tri.emplace(el.el); }
    sim::arm_alloc_failure(k);
    try {
      switch (way) {
        case 0: {
          std::unique_ptr<adjacency<0, int>> a;
          if (par) a = std::make_unique<adjacency<0, int>>(el.el, sorted); else a = std::make_unique<adjacency<0, int>>(el.el, sorted, std::execution::seq);
          sim::disarm_alloc_failure(); sim::Quiet q; rows(*a, cu, g.n, true); break;
        }
        case 1: {
          std::unique_ptr<adjacency<1, double>> a;
          if (par) a = std::make_unique<adjacency<1, double>>(eld.el, sorted); else a = std::make_unique<adjacency<1, double>>(eld.el, sorted, std::execution::seq);
          sim::disarm_alloc_failure(); sim::Quiet q; rows(*a, ct, g.n, true); break;
        }
        case 2: {
          std::unique_ptr<biadjacency<0, int>> a;
          if (par) a = std::make_unique<biadjacency<0, int>>(bel.el, sorted); else a = std::make_unique<biadjacency<0, int>>(bel.el, sorted, std::execution::seq);
          sim::disarm_alloc_failure(); sim::Quiet q;
          Gr t = g; for (auto& x : t.e) x.v += x.w % 3;
          Csr c; c.idx.assign(g.n + 1, 0);
          for (auto& x : t.e) c.idx[x.u + 1]++;
          for (u32 i = 0; i < g.n; i++) c.idx[i + 1] += c.idx[i];
          std::vector<u32> at(c.idx.begin(), c.idx.end() - 1);
          c.to.resize(t.e.size());
          for (auto& x : t.e) c.to[at[x.u]++] = x.v;
          rows(*a, c, g.n, true);
          break;
        }
        case 3: { copy_el = el.el; break; }
        case 4: { auto c = ga.g; sim::disarm_alloc_failure(); sim::Quiet q; rows(c, cd, g.n, false); break; }
        case 5: {
          auto idx = [&] { sim::Quiet q; return ga.g.get_indices(); }();
          std::tuple<std::vector<u32>, std::vector<double>> cols;
          { sim::Quiet q; cols = ga.g.get_to_be_indexed(); }
          sim::disarm_alloc_failure(); sim::arm_alloc_failure(k);
          gb.g.copy(idx, cols);
          break;
        }
        case 6: st2->load(std::string("/sim/x")); break;
        case 7: {
          auto d = degrees(ga.g);
          sim::disarm_alloc_failure(); sim::Quiet q;
          for (u32 i = 0; i < g.n; i++) if (d[i] != cd.idx[i + 1] - cd.idx[i]) problem = "wrong degree";
          break;
        }
        case 8: swap_to_triangular<0>(*tri, succession::successor); break;
        case 9: lexical_sort_by<0>(*tri); break;
        default: relabel_by_degree<0>(*tri, "ascending", degrees(*tri)); break;
      }
    } catch (const std::bad_alloc&) { threw = true; how = "threw bad_alloc"; }
    catch (const std::system_error&) { threw = true; how = "threw system_error"; }
    sim::disarm_alloc_failure();
  });
  sim::allow_failstop(false);
  bool fired = sim::alloc_failure_fired();
  sim::note("%s %s, %s", ways[way], how, fired ? "after a failure" : "no failure reached it");
  if (threw && !fired) sim::violation("spurious", "%s %s although nothing had failed", ways[way], how);
  if (!problem.empty()) sim::violation("wrong-result", "%s returned after a failed allocation: %s", ways[way], problem.c_str());
  if (el.bytes() != b1 || eld.bytes() != b2 || bel.bytes() != b3 || ga.bytes() != ba) sim::violation("damaged", "%s %s and changed its input", ways[way], how);
  if (way == 5 && gb.bytes() != (threw ? bb : ba)) sim::violation("inconsistent", "copying arrays into a graph %s, and it is neither the old nor the new one", how);
  if (way == 3 && !threw) { if (!(copy_el->size() == el.el.size())) sim::violation("wrong-result", "a copy of an edge list has %zu edges", copy_el->size()); }
  if (way == 6) {
    if (!threw && st2->bytes() != bs) sim::violation("wrong-result", "%s was read back differently", st->kind.c_str());
    sim::run([&] { st2->load(std::string("/sim/x")); });
    if (st2->bytes() != bs) sim::violation("inconsistent", "%s: after running out of memory while it was read, reading it again gives another object", st->kind.c_str());
  }
  if (tri) {
    bool same = true;
    std::apply([&](auto&... v) { ((same &= v.size() == g.e.size()), ...); }, static_cast<const EL::base::storage_type&>(*tri));
    if (!same) sim::violation("inconsistent", "%s %s and left columns of different lengths", ways[way], how);
  }
  copy_el.reset();
  tri.reset();
  if (way != 5 && way != 6 && sim::live_blocks() != before) {
    sim::show_live_blocks();
    sim::violation("leak", "%s %s and left %lld blocks allocated", ways[way], how, (long long)(sim::live_blocks() - before));
  }
  return fired;
}
void scenario(int tier) {
  bool nontrivial = sim::wl(2) ? grow(tier) : whole(tier);
  if (nontrivial) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C17", scenario, "a run counts when an injected allocation failure hit an operation; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
