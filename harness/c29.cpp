// Uncompressed graphs, vectors of vectors and of lists, and the tables that number the vertices of user data: built by
// several callers from shared edge lists, with allocations that may fail.
#include "callers.h"
#include "nwgraph/volos.hpp"
#include "nwgraph/vovos.hpp"
#include <map>
#include <string>
using namespace h;
namespace {
using Ent = std::tuple<u32, int>;
using ELD = edge_list<directedness::directed, int>;
using ELU = edge_list<directedness::undirected, int>;
using ELP = edge_list<directedness::directed>;
struct Ctx {
  Gr  g;
  u32 n;   // vertices of the edge lists
  std::shared_ptr<ELD> d;
  std::shared_ptr<ELU> u;
  std::shared_ptr<ELP> p;
  std::vector<std::string>                                   names, right;   // one row each, and the columns named otherwise
  std::vector<std::tuple<std::string, std::string, int>>     data;
  std::vector<u32>                                           col;   // vertex -> its place in right
};
using Rows = std::vector<std::vector<Ent>>;
template <class G>
Rows rows(const G& g) {
  Rows r(g.size());
  std::size_t v = 0;
  for (auto& row : g) {
    for (auto& e : row)
      if constexpr (std::tuple_size_v<std::decay_t<decltype(e)>> == 1) r[v].push_back({(u32)std::get<0>(e), 0});
      else r[v].push_back({(u32)std::get<0>(e), (int)std::get<1>(e)});
    v++;
  }
  return r;
}
// what the rows should be: the arcs, indexed by their first or second end, both ways when undirected
Rows want_rows(const Gr& g, u32 n, bool both, bool attr, int idx = 0, std::size_t upto = ~0ull) {
  Rows r(n);
  for (std::size_t k = 0; k < std::min(upto, g.e.size()); k++) {
    u32 a = idx ? g.e[k].v : g.e[k].u, b = idx ? g.e[k].u : g.e[k].v;
    r[a].push_back({b, attr ? (int)g.e[k].w : 0});
    if (both) r[b].push_back({a, attr ? (int)g.e[k].w : 0});
  }
  return r;
}
void compare(const char* what, Rows got, Rows want, bool may_have_more_rows = false) {
  if (may_have_more_rows) while (got.size() > want.size() && got.back().empty()) got.pop_back();
  if (may_have_more_rows) while (want.size() > got.size() && want.back().empty()) want.pop_back();
  if (got.size() != want.size()) sim::violation("rows", "%s: %zu rows for %zu vertices", what, got.size(), want.size());
  for (std::size_t v = 0; v < got.size(); v++) {
    std::sort(got[v].begin(), got[v].end());
    std::sort(want[v].begin(), want[v].end());
    if (got[v] != want[v]) {
      std::string s;
      for (auto& [b, w] : got[v]) s += " " + std::to_string(b) + ":" + std::to_string(w);
      s += ", should be";
      for (auto& [b, w] : want[v]) s += " " + std::to_string(b) + ":" + std::to_string(w);
      sim::violation("rows", "%s: the edges of vertex %zu are%s", what, v, s.c_str());
    }
  }
}
template <class G, class EL>
JobP mk_build_(Ctx& c, std::shared_ptr<EL> el, const char* what, bool both, bool attr) {
  auto r  = std::make_shared<Rows>();
  auto ne = std::make_shared<std::size_t>(0);
  bool copy = sim::wlp(40);
  sim::note("%s%s", what, copy ? ", copied and moved" : "");
  return job(what, [=] {
      G g(*el);
      if (copy) {
        G h(g), k(std::move(g));
        sim::Quiet q;
        auto a = rows(h);
        compare(what, a, rows(k));
        *r = a;
      }
      else { sim::Quiet q; *r = rows(g); }
      if constexpr (requires { g.num_edges(); }) if (!copy) *ne = g.num_edges();
    }, [=, &c] {
      compare(what, *r, want_rows(c.g, c.n, both, attr));
      if (*ne && *ne != c.g.e.size() * (both ? 2 : 1)) sim::violation("rows", "%s: num_edges is %zu, there are %zu", what, *ne, c.g.e.size() * (both ? 2 : 1));
    });
}
JobP mk_build(Ctx& c) {
  switch (sim::wl(5)) {
    case 0: return mk_build_<vov<0, int>>(c, c.d, "vov of a directed list", false, true);
    case 1: return mk_build_<vov<0, int>>(c, c.u, "vov of an undirected list", true, true);
    case 2: return mk_build_<adj_list<0, int>>(c, c.d, "adj_list of a directed list", false, true);
    case 3: return mk_build_<adj_list<0, int>>(c, c.u, "adj_list of an undirected list", true, true);
    default: return mk_build_<vov<0>>(c, c.p, "vov of a plain list", false, false);
  }
}
// one edge after the other, onto a graph with too few rows; a push_back that throws is made again
template <class G>
JobP mk_push_(Ctx& c, const char* what) {
  auto r  = std::make_shared<Rows>();
  u32  n0 = sim::wlp(50) ? 0 : (u32)sim::wl(c.g.n + 1);
  sim::note("%s, %u rows at first", what, n0);
  return job(what, [=, &c] {
      G g(n0);
      g.open_for_push_back();
      for (std::size_t k = 0; k < c.g.e.size(); k++) {
        auto& a = c.g.e[k];
        try { g.push_back(a.u, a.v, (int)a.w); }
        catch (const std::bad_alloc&) {
          sim::probe("push_back threw");
          { sim::Quiet q; compare(what, rows(g), want_rows(c.g, c.g.n, false, true, 0, k), true); }
          k--;
          sim::probe("push_back repeated");
        }
      }
      g.close_for_push_back();
      sim::Quiet q;
      *r = rows(g);
    }, [=, &c] {
      u32 top = n0;
      for (auto& a : c.g.e) top = std::max(top, a.u + 1);
      if (r->size() != top) sim::violation("rows", "%s: %zu rows, the last vertex with an edge is %u", what, r->size(), top);
      compare(what, *r, want_rows(c.g, c.g.n, false, true), true);
    });
}
JobP mk_push(Ctx& c) { return sim::wlp(50) ? mk_push_<vov<0, int>>(c, "vov by push_back") : mk_push_<adj_list<0, int>>(c, "adj_list by push_back"); }
JobP mk_fill(Ctx& c) {
  bool both = sim::wlp(50), plain = sim::wlp(30);
  int  idx  = (int)sim::wl(2);
  auto r    = std::make_shared<Rows>();
  sim::note("push_back_fill, %s, by end %d", both ? "both ways" : "one way", idx);
  return job("push_back_fill", [=, &c] {
      if (plain) {
        std::vector<std::vector<std::tuple<std::size_t>>> v(c.n);
        push_back_fill(*c.p, v, !both, idx);
        sim::Quiet q;
        *r = rows(v);
      } else {
        std::vector<std::vector<std::tuple<std::size_t, int>>> v(c.n);
        push_back_fill(*c.d, v, !both, idx);
        sim::Quiet q;
        *r = rows(v);
      }
    }, [=, &c] { compare("push_back_fill", *r, want_rows(c.g, c.n, both, !plain, idx)); });
}
JobP mk_names(Ctx& c) {
  int  kind = (int)sim::wl(4);
  bool twice = sim::wlp(30);   // a list that repeats names: the last place is the number
  auto r    = std::make_shared<std::vector<std::array<std::size_t, 3>>>();
  auto m    = std::make_shared<std::map<std::string, std::size_t>>();
  static const char* nm[] = {"make_property_edges", "make_index_edges", "data_to_graph_edge_list", "data_to_graph_edge_list, two name lists"};
  sim::note("%s", nm[kind]);
  return job(nm[kind], [=, &c] {
      r->clear();
      if (twice) {
        auto rep = c.right;
        rep.insert(rep.end(), c.names.begin(), c.names.end());
        *m = make_index_map(rep);
        for (auto& [name, i] : *m) i -= c.right.size();
      } else *m = make_index_map(c.names);
      auto keep = [&](auto&& es) {
        sim::Quiet q;
        for (auto& e : es)
          if constexpr (std::tuple_size_v<std::decay_t<decltype(e)>> == 2) r->push_back({std::get<0>(e), std::get<1>(e), 0});
          else r->push_back({std::get<0>(e), std::get<1>(e), (std::size_t)std::get<2>(e)});
      };
      if (kind == 0) keep(make_property_edges(*m, c.data));
      else if (kind == 1) keep(make_index_edges(*m, c.data));
      else if (kind == 2) keep(data_to_graph_edge_list(c.names, c.names, c.data));
      else keep(data_to_graph_edge_list(c.names, c.right, c.data));
    }, [=, &c] {
      if (m->size() != c.names.size()) sim::violation("numbering", "make_index_map: %zu names of %zu", m->size(), c.names.size());
      for (u32 v = 0; v < c.names.size(); v++) {
        auto it = m->find(c.names[v]);
        if (it == m->end() || it->second != v) sim::violation("numbering", "make_index_map: name %u has number %zu", v, it == m->end() ? ~0ull : it->second);
      }
      if (r->size() != c.g.e.size()) sim::violation("numbering", "%s: %zu edges of %zu", nm[kind], r->size(), c.g.e.size());
      for (std::size_t k = 0; k < r->size(); k++) {
        std::array<std::size_t, 3> want{c.g.e[k].u, kind == 3 ? c.col[c.g.e[k].v] : c.g.e[k].v, kind == 0 ? c.g.e[k].w : kind == 1 ? k : 0};
        if ((*r)[k] != want) sim::violation("numbering", "%s: edge %zu is (%zu,%zu,%zu), should be (%zu,%zu,%zu)", nm[kind], k, (*r)[k][0], (*r)[k][1], (*r)[k][2], want[0], want[1], want[2]);
      }
    });
}
template <class EL>
void same_list(Ctx& c, EL& el, const char* what) {
  if (el.size() != c.g.e.size() || el.num_vertices()[0] != c.n) sim::violation("list-changed", "%s edge list: %zu edges and %zu vertices, before %zu and %u", what, el.size(), (std::size_t)el.num_vertices()[0], c.g.e.size(), c.n);
  std::size_t k = 0;
  for (auto&& e : el) {
    u32 w = c.g.e[k].w;
    if constexpr (std::tuple_size_v<std::decay_t<decltype(e)>> == 3) w = (u32)std::get<2>(e);
    if (std::get<0>(e) != c.g.e[k].u || std::get<1>(e) != c.g.e[k].v || w != c.g.e[k].w) sim::violation("list-changed", "%s edge list: edge %zu is another one", what, k);
    k++;
  }
}
void scenario(int tier) {
  GenOpts o;
  o.small = 9; o.medium = 30; o.large = tier ? 90 : 50;
  o.huge = 1;
  o.maxw = 50;
  Ctx c;
  c.g = gen_graph(o);
  note_graph(c.g, true);
  u32 over = sim::wlp(30) ? (u32)sim::wl(4) : 0;   // vertices past the last one of any edge
  c.n = c.g.n + over;
  c.d = std::make_shared<ELD>(c.n); c.u = std::make_shared<ELU>(c.n); c.p = std::make_shared<ELP>(c.n);
  auto fill = [&](auto& el, auto push) { el.open_for_push_back(); for (auto& a : c.g.e) push(a); el.close_for_push_back(); };
  fill(*c.d, [&](const Arc& a) { c.d->push_back(a.u, a.v, (int)a.w); });
  fill(*c.u, [&](const Arc& a) { c.u->push_back(a.u, a.v, (int)a.w); });
  fill(*c.p, [&](const Arc& a) { c.p->push_back(a.u, a.v); });
  c.n = (u32)c.d->num_vertices()[0];
  for (u32 v = 0; v < c.g.n; v++) c.names.push_back(sim::wlp(20) ? "a vertex whose name needs the heap " + std::to_string(v) : "v" + std::to_string(v));
  for (u32 v = c.g.n; v-- > 1;) std::swap(c.names[v], c.names[sim::wl(v + 1)]);
  for (auto& a : c.g.e) c.data.push_back({c.names[a.u], c.names[a.v], (int)a.w});
  auto names = c.names;
  c.right = c.names;
  for (u32 v = c.g.n; v-- > 1;) std::swap(c.right[v], c.right[sim::wl(v + 1)]);
  for (u32 v = 0; v < c.g.n; v++) c.col.push_back((u32)(std::find(c.right.begin(), c.right.end(), c.names[v]) - c.right.begin()));
  auto data  = c.data;
  std::uint64_t before = sim::live_blocks();
  {
    using Make = JobP (*)(Ctx&);
    static const Make makes[] = {mk_build, mk_build, mk_push, mk_fill, mk_names};
    u32 nt = 1 + (u32)sim::wl(4), rounds = 1 + (u32)sim::wl(2);
    Callers all;
    all.jobs.resize(nt);
    for (u32 t = 0; t < nt; t++)
      for (u32 r = 0; r < rounds; r++) {
        sim::note("caller %u:", t);
        all.jobs[t].push_back(makes[sim::wl(5)](c));
      }
    all.run(Callers::draw_failure(), [&] {
      sim::Quiet q;
      same_list(c, *c.d, "directed");
      same_list(c, *c.u, "undirected");
      same_list(c, *c.p, "plain");
      if (names != c.names || data != c.data) sim::violation("list-changed", "the user's data changed");
    });
    if ((all.overlap && c.g.e.size() >= 3 && sim::preemptions() >= 3) || all.fired) sim::mark_nontrivial();
  }
  no_leak(before);
}
}
const PropertyDef g_properties[] = {{"C29", scenario, "a run counts when calls of at least 2 callers overlapped in time on a graph of at least 3 arcs with at least 3 preemptions, or an injected allocation failure hit a call; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
