// Matrix Market files: jobs that write and read graphs, and the reference for what must come back.
#pragma once
#include "nw.h"
#include "nwgraph/io/mmio.hpp"
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
namespace h {
struct MEnt {
  u32 u, v; double w;
  bool operator==(const MEnt& o) const { return u == o.u && v == o.v && w == o.w; }
};
struct MList { std::size_t n0 = 0, n1 = 0; std::vector<MEnt> e; };
template <class L>
MList list_of(L& el) {
  MList r;
  r.n0 = el.num_vertices()[0];
  r.n1 = el.num_vertices()[el.num_vertices().size() - 1];
  for (std::size_t k = 0; k < el.size(); k++) {
    auto&& e = el[k];
    double w = 0;
    if constexpr (std::tuple_size_v<std::decay_t<decltype(e)>> >= 3) w = (double)std::get<2>(e);
    r.e.push_back({(u32)std::get<0>(e), (u32)std::get<1>(e), w});
  }
  return r;
}
// The content of a file: what any reader of the format would make of it.
struct MFile { std::size_t n0 = 0, n1 = 0; bool symmetric = false; int type = 0; /*0 pattern, 1 integer, 2 real*/ std::vector<MEnt> e; };
// What reading it into a list must give. wt: 0 none, 1 int, 2 double, 3 float
inline MList expected(const MFile& f, bool directed, int wt) {
  MList r;
  r.n0 = r.n1 = f.n0;
  for (auto& e : f.e) {
    double w = wt == 0 ? 0 : f.type == 0 ? 1 : e.w;
    if (wt == 1 && f.type) w = (double)(int)w;
    if (wt == 3) w = (float)w;
    r.e.push_back({e.u, e.v, w});
    if (directed && f.symmetric && e.u != e.v) r.e.push_back({e.v, e.u, w});
  }
  for (auto& e : r.e) r.n0 = std::max<std::size_t>(r.n0, std::max(e.u, e.v) + 1);
  r.n1 = r.n0;
  return r;
}
inline std::string diff(const MList& got, const MList& want) {
  char b[300];
  if (got.n0 != want.n0 || got.n1 != want.n1) { snprintf(b, sizeof b, "%zu by %zu vertices, expected %zu by %zu", got.n0, got.n1, want.n0, want.n1); return b; }
  if (got.e.size() != want.e.size()) { snprintf(b, sizeof b, "%zu edges, expected %zu", got.e.size(), want.e.size()); return b; }
  for (std::size_t k = 0; k < got.e.size(); k++)
    if (!(got.e[k] == want.e[k])) {
      snprintf(b, sizeof b, "edge %zu is (%u, %u, %.17g), expected (%u, %u, %.17g)", k, got.e[k].u, got.e[k].v, got.e[k].w, want.e[k].u, want.e[k].v, want.e[k].w);
      return b;
    }
  return "";
}
// Read a file into one of the eight kinds of list.
inline MList read_list(const std::string& f, bool directed, int wt, bool stream) {
  constexpr auto D = directedness::directed, U = directedness::undirected;
  auto go = [&](auto read) { auto el = read(); return list_of(el); };
  std::ifstream i;
  if (stream) i.open(f);
  if (directed) switch (wt) {
    case 0: return go([&] { return stream ? read_mm<D>(i) : read_mm<D>(f); });
    case 1: return go([&] { return stream ? read_mm<D, int>(i) : read_mm<D, int>(f); });
    case 2: return go([&] { return stream ? read_mm<D, double>(i) : read_mm<D, double>(f); });
    default: return go([&] { return stream ? read_mm<D, float>(i) : read_mm<D, float>(f); });
  }
  switch (wt) {
    case 0: return go([&] { return stream ? read_mm<U>(i) : read_mm<U>(f); });
    case 1: return go([&] { return stream ? read_mm<U, int>(i) : read_mm<U, int>(f); });
    case 2: return go([&] { return stream ? read_mm<U, double>(i) : read_mm<U, double>(f); });
    default: return go([&] { return stream ? read_mm<U, float>(i) : read_mm<U, float>(f); });
  }
}
// Read the bipartite graph a file holds.
template <class... A>
MList read_bi(const std::string& f, bool pattern) {
  std::ifstream i(f);
  std::string   l;
  std::getline(i, l);
  while (std::getline(i, l) && l[0] == '%') {}
  std::size_t n0 = 0, n1 = 0, m = 0;
  std::stringstream(l) >> n0 >> n1 >> m;
  bi_edge_list<directedness::directed, A...> el(n0, n1);
  mm_fill(i, el, m, false, pattern);
  return list_of(el);
}

// ---- graphs that can be written
struct MWriter {
  std::string kind;
  MFile       file;    // what the file must then hold
  bool        bi = false, single = false;   // single: float weights
  virtual ~MWriter() = default;
  virtual void write(const std::string& f) = 0;
};
using MWriterP = std::unique_ptr<MWriter>;
inline double weight(u32 w, u32 k, int type) {
  if (type == 1) return (double)w - 3;
  static const double scale[] = {1.0 / 3, 1e-7, 12345678.9, 1e-300, -0.1};
  return (w + 1) * scale[(w + k) % 5];
}
template <class T>
T as(double w) { return (T)w; }
template <directedness dir, class... A>
struct ElWriter : MWriter {
  edge_list<dir, A...> el;
  bool sym;
  ElWriter(const Gr& g, bool s) : el(g.n), sym(s) {
    constexpr bool has = sizeof...(A) > 0;
    using W = std::tuple_element_t<0, std::tuple<A..., int>>;
    file.type = !has ? 0 : std::is_floating_point_v<W> ? 2 : 1;
    single = std::is_same_v<W, float>;
    file.symmetric = sym;
    file.n0 = file.n1 = g.n;
    u32 k = 0;
    for (auto& a : g.e) {
      W w = has ? as<W>(weight(a.w, k++, file.type)) : W(0);
      if constexpr (has) el.push_back(a.u, a.v, w); else el.push_back(a.u, a.v);
      file.e.push_back({a.u, a.v, (double)w});
      if (!sym && dir == directedness::undirected) file.e.push_back({a.v, a.u, (double)w});
    }
    el.close_for_push_back();
    kind = std::string("edge_list<") + (dir == directedness::directed ? "directed" : "undirected") + (has ? ", weight> " : "> ") + (sym ? "symmetric" : "general");
  }
  void write(const std::string& f) override {
    std::string s = sym ? "symmetric" : "general";
    if constexpr (sizeof...(A) > 0) write_mm<2, std::tuple_element_t<0, std::tuple<A...>>>(f, el, s);
    else write_mm(f, el, s);
  }
};
template <int idx, int parts, class... A>
struct AdjWriter : MWriter {
  using G = std::conditional_t<parts == 2, biadjacency<idx, A...>, adjacency<idx, A...>>;
  std::unique_ptr<G> g;
  explicit AdjWriter(const Gr& gr) {
    constexpr bool has = sizeof...(A) > 0;
    using W = std::tuple_element_t<0, std::tuple<A..., int>>;
    file.type = !has ? 0 : std::is_floating_point_v<W> ? 2 : 1;
    Csr c = csr(gr, idx == 1, false);
    std::tuple<std::vector<u32>, std::vector<A>...> cols;
    std::get<0>(cols) = c.to;
    if constexpr (has) for (u32 k = 0; k < c.to.size(); k++) std::get<1>(cols).push_back(as<W>(weight(c.w[k], k, file.type)));
    std::size_t other = gr.n + 2;
    if constexpr (parts == 2) g = std::make_unique<G>(other, c.idx, cols);
    else g = std::make_unique<G>(c.idx, cols);
    bi = parts == 2;
    file.n0 = parts == 2 && idx == 1 ? other : gr.n;
    file.n1 = parts == 2 && idx == 0 ? other : gr.n;
    for (u32 i = 0; i < gr.n; i++)
      for (u32 k = c.idx[i]; k < c.idx[i + 1]; k++) {
        double w = 0;
        if constexpr (has) w = (double)std::get<1>(cols)[k];
        file.e.push_back(idx == 0 ? MEnt{i, c.to[k], w} : MEnt{c.to[k], i, w});
      }
    kind = std::string(parts == 2 ? "biadjacency<" : "adjacency<") + std::to_string(idx) + (has ? ", weight>" : ">");
  }
  void write(const std::string& f) override {
    if constexpr (sizeof...(A) > 0) write_mm<1, std::tuple_element_t<0, std::tuple<A...>>>(f, *g);
    else write_mm(f, *g);
  }
};
constexpr u32 NWRITERS = 17;
inline MWriterP make_writer(u32 k, const Gr& g) {
  constexpr auto D = directedness::directed, U = directedness::undirected;
  switch (k) {
    case 0: return std::make_unique<ElWriter<D>>(g, false);
    case 1: return std::make_unique<ElWriter<D, int>>(g, false);
    case 2: return std::make_unique<ElWriter<D, double>>(g, false);
    case 3: return std::make_unique<ElWriter<U>>(g, false);
    case 4: return std::make_unique<ElWriter<U>>(g, true);
    case 5: return std::make_unique<ElWriter<U, int>>(g, true);
    case 6: return std::make_unique<ElWriter<U, double>>(g, false);
    case 7: return std::make_unique<ElWriter<U, double>>(g, true);
    case 8: return std::make_unique<AdjWriter<0, 1>>(g);
    case 9: return std::make_unique<AdjWriter<1, 1>>(g);
    case 10: return std::make_unique<AdjWriter<0, 1, double>>(g);
    case 11: return std::make_unique<AdjWriter<1, 1, int>>(g);
    case 12: return std::make_unique<AdjWriter<0, 2>>(g);
    case 13: return std::make_unique<AdjWriter<1, 2>>(g);
    case 14: return std::make_unique<AdjWriter<0, 2, double>>(g);
    case 15: return std::make_unique<AdjWriter<1, 2, double>>(g);
    default: return std::make_unique<ElWriter<D, float>>(g, false);
  }
}
inline Gr mm_graph(int tier) {
  GenOpts o;
  o.small = 8; o.medium = 40; o.large = tier ? 500 : 200;
  o.huge = 1;
  static const u32 mw[] = {1, 40, 5000};
  o.maxw = mw[sim::wl(3)];
  Gr g = gen_graph(o);
  if (sim::wl(12) == 0) g.e.clear();
  return g;
}
// A file as other programs write it.
inline std::string hand_made(MFile& f, const Gr& g, bool final_newline) {
  f.n0 = f.n1 = g.n;
  f.symmetric = sim::wl(2);
  f.type = (int)sim::wl(3);
  static const char* types[] = {"pattern", "integer", "real"};
  static const char* gaps[] = {" ", "  ", "\t", " \t "};
  std::string s = std::string("%%MatrixMarket matrix coordinate ") + types[f.type] + " " + (f.symmetric ? "symmetric" : "general") + "\n";
  u32 nc = (u32)sim::wl(4);
  static const char* comments[] = {"%", "% a comment", "%% 3 4 5", "%-----------------------------------------------------"};
  for (u32 i = 0; i < nc; i++) s += std::string(comments[sim::wl(4)]) + "\n";
  auto gap = [&] { return std::string(gaps[sim::wl(4)]); };
  std::size_t m = g.e.size();
  s += std::to_string(g.n) + gap() + std::to_string(g.n) + gap() + std::to_string(m) + "\n";
  u32 k = 0;
  for (auto& a : g.e) {
    MEnt e{a.u, a.v, 0};
    s += std::to_string(a.u + 1) + gap() + std::to_string(a.v + 1);
    if (f.type == 1) { e.w = weight(a.w, k, 1); s += gap() + std::to_string((int)e.w); }
    if (f.type == 2) {
      char b[40];
      snprintf(b, sizeof b, sim::wl(2) ? "%.6e" : "%.4f", weight(a.w, k, 2));
      e.w = strtod(b, nullptr);
      s += gap() + b;
    }
    k++;
    s += "\n";
    f.e.push_back(e);
  }
  if (!final_newline && !g.e.empty()) s.pop_back();
  return s;
}
}  // namespace h
