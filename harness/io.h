// Serializable objects of every kind behind one interface, for the serialization properties.
#pragma once
#include "nw.h"
#include "nwgraph/containers/aos.hpp"
#include "nwgraph/containers/soa.hpp"
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
namespace h {
struct Store {
  std::string kind;
  virtual ~Store() = default;
  virtual void fill(const Gr& g) = 0;                      // make it hold g
  virtual std::string bytes() const = 0;                   // everything a user can read off it
  virtual void save(const std::string& f) const = 0;
  virtual void load(const std::string& f) = 0;
  virtual bool streams() const { return false; }
  virtual void save(std::ostream&) const {}
  virtual void load(std::istream&) {}
  virtual bool equals(Store&) { return true; }
  virtual std::unique_ptr<Store> copy() const = 0;
};
using StoreP = std::unique_ptr<Store>;

template <class T>
void put_bytes(std::string& s, const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
template <class T>
T attr_of(u32 w, u32 k);
template <> inline int    attr_of<int>(u32 w, u32 k) { return (int)w - 7 + (int)k; }
template <> inline double attr_of<double>(u32 w, u32 k) { return w / 3.0 - k * 1e-9; }
template <> inline float  attr_of<float>(u32 w, u32 k) { return w / 7.0f + k; }
template <> inline unsigned char attr_of<unsigned char>(u32 w, u32 k) { return (unsigned char)(w * 37 + k); }
template <> inline u64    attr_of<u64>(u32 w, u32 k) { return ((u64)w << 33) + k; }
template <class... A>
std::vector<std::tuple<A...>> attr_rows(const std::vector<u32>& w) {
  std::vector<std::tuple<A...>> r;
  u32 k = 0;
  for (u32 x : w) { r.push_back(std::tuple<A...>{attr_of<A>(x, k)...}); k++; }
  return r;
}

// ---- edge lists
template <class EL, class... A>
struct ElStore : Store {
  EL el;
  static constexpr bool uni = is_unipartite<typename EL::graph_base>::value;
  ElStore() {}
  void fill(const Gr& g) override {
    if constexpr (uni) el = EL(g.n); else el = EL(g.n, g.n + 3);
    u32 k = 0;
    for (auto& a : g.e) { el.push_back(a.u, uni ? a.v : a.v + (u32)(a.w % 3), attr_of<A>(a.w, k)...); k++; }
    el.close_for_push_back();
  }
  std::string bytes() const override {
    std::string s;
    put_bytes(s, el.size());
    put_bytes(s, (u64)el.num_edges());
    for (auto c : el.num_vertices()) put_bytes(s, (u64)c);
    for (std::size_t k = 0; k < el.size(); k++) std::apply([&](auto&... x) { (put_bytes(s, x), ...); }, el[k]);
    std::apply([&](auto&... v) { (put_bytes(s, v.size()), ...); }, static_cast<const typename EL::base::storage_type&>(el));
    return s;
  }
  void save(const std::string& f) const override { el.serialize(f); }
  void load(const std::string& f) override { el.deserialize(f); }
  bool streams() const override { return true; }
  void save(std::ostream& o) const override { el.serialize(o); }
  void load(std::istream& i) override { el.deserialize(i); }
  bool equals(Store& o) override { return el == static_cast<ElStore&>(o).el; }
  StoreP copy() const override { auto p = std::make_unique<ElStore>(); p->el = el; p->kind = kind; return p; }
};
// ---- compressed graphs
template <class G, int parts, class... A>
struct AdjStore : Store {
  G g;
  AdjStore() : g(parts == 2 ? G(0, 0) : G(0)) {}
  void fill(const Gr& gr) override {
    Csr c = csr(gr, false, false);
    auto rows = attr_rows<A...>(c.w);
    using V = std::decay_t<decltype(g.get_indices()[0])>;
    std::tuple<std::vector<V>, std::vector<A>...> cols;
    for (u32 k = 0; k < c.to.size(); k++) std::apply([&](auto& to, auto&... v) {
      to.push_back(c.to[k]);
      std::apply([&](auto... x) { (v.push_back(x), ...); }, rows[k]);
    }, cols);
    std::vector<V> idx(c.idx.begin(), c.idx.end());
    if constexpr (parts == 2) g = G(gr.n + 5, idx, cols); else g = G(idx, cols);
  }
  std::string bytes() const override {
    std::string s;
    put_bytes(s, (u64)g.size());
    put_bytes(s, (u64)g.num_edges());
    for (auto c : g.num_vertices()) put_bytes(s, (u64)c);
    for (auto i : g.get_indices()) put_bytes(s, (u64)i);
    for (std::size_t i = 0; i < g.size(); i++) {
      auto row = g[i];
      put_bytes(s, (u64)row.size());
      for (auto&& e : row) std::apply([&](auto&... x) { (put_bytes(s, x), ...); }, e);
    }
    return s;
  }
  void save(const std::string& f) const override { g.serialize(f); }
  void load(const std::string& f) override { g.deserialize(f); }
  StoreP copy() const override { auto p = std::make_unique<AdjStore>(); p->g = g; p->kind = kind; return p; }
};
// ---- plain containers
template <class C, bool soa, class... A>
struct ConStore : Store {
  C c;
  void fill(const Gr& g) override {
    c.clear();
    u32 k = 0;
    for (auto& a : g.e) { c.push_back(attr_of<A>(a.w + a.u * 3 + a.v, k)...); k++; }
  }
  std::string bytes() const override {
    std::string s;
    put_bytes(s, c.size());
    for (std::size_t k = 0; k < c.size(); k++) std::apply([&](auto&... x) { (put_bytes(s, x), ...); }, c[k]);
    if constexpr (soa) std::apply([&](auto&... v) { (put_bytes(s, v.size()), ...); }, static_cast<const typename C::storage_type&>(c));
    return s;
  }
  void save(const std::string& f) const override { c.serialize(f); }
  void load(const std::string& f) override { c.deserialize(f); }
  bool streams() const override { return true; }
  void save(std::ostream& o) const override { c.serialize(o); }
  void load(std::istream& i) override { c.deserialize(i); }
  bool equals(Store& o) override { return c == static_cast<ConStore&>(o).c; }
  StoreP copy() const override { auto p = std::make_unique<ConStore>(); p->c = c; p->kind = kind; return p; }
};
constexpr u32 NKINDS = 22;
inline StoreP make_store(u32 k) {
  using D = directedness;
  constexpr D d = D::directed, u = D::undirected;
  auto named = [&](Store* p, const char* n) { StoreP s(p); s->kind = n; return s; };
  switch (k) {
    case 0: return named(new ElStore<edge_list<d>>, "edge_list<directed>");
    case 1: return named(new ElStore<edge_list<u, double>, double>, "edge_list<undirected, double>");
    case 2: return named(new ElStore<edge_list<d, int>, int>, "edge_list<directed, int>");
    case 3: return named(new ElStore<edge_list<d, unsigned char, double>, unsigned char, double>, "edge_list<directed, uchar, double>");
    case 4: return named(new ElStore<bi_edge_list<d>>, "bi_edge_list<directed>");
    case 5: return named(new ElStore<bi_edge_list<d, double>, double>, "bi_edge_list<directed, double>");
    case 6: return named(new AdjStore<adjacency<0>, 1>, "adjacency<0>");
    case 7: return named(new AdjStore<adjacency<1, double>, 1, double>, "adjacency<1, double>");
    case 8: return named(new AdjStore<adjacency<0, int, double>, 1, int, double>, "adjacency<0, int, double>");
    case 9: return named(new AdjStore<biadjacency<0>, 2>, "biadjacency<0>");
    case 10: return named(new AdjStore<biadjacency<1, float>, 2, float>, "biadjacency<1, float>");
    case 11: return named(new ConStore<struct_of_arrays<int, double>, true, int, double>, "struct_of_arrays<int, double>");
    case 12: return named(new ConStore<struct_of_arrays<unsigned char, u64, float>, true, unsigned char, u64, float>, "struct_of_arrays<uchar, u64, float>");
    case 13: return named(new ConStore<array_of_structs<u64, double>, false, u64, double>, "array_of_structs<u64, double>");
    case 14: return named(new ConStore<array_of_structs<int, int>, false, int, int>, "array_of_structs<int, int>");
    case 15: return named(new ElStore<edge_list<u>>, "edge_list<undirected>");
    case 16: return named(new ConStore<struct_of_arrays<u64>, true, u64>, "struct_of_arrays<u64>");
    case 17: return named(new AdjStore<index_adjacency<0, u64, u64, double>, 1, double>, "index_adjacency<0, u64, u64, double>");
    case 18: return named(new AdjStore<index_adjacency<1, std::uint16_t, std::uint16_t>, 1>, "index_adjacency<1, u16, u16>");
    case 19: return named(new ElStore<index_edge_list<u64, unipartite_graph_base, d, float>, float>, "index_edge_list<u64, directed, float>");
    case 20: return named(new ElStore<index_edge_list<std::uint16_t, bipartite_graph_base, d, int, double>, int, double>, "index_edge_list<u16, bipartite, directed, int, double>");
    default: return named(new AdjStore<adjacency<1, unsigned char>, 1, unsigned char>, "adjacency<1, uchar>");
  }
}
inline GenOpts io_opts(int tier) {
  GenOpts o;
  o.small = 8; o.medium = 60; o.large = tier ? 900 : 400;
  o.huge = 1;
  static const u32 mw[] = {1, 40, 5000};
  o.maxw = mw[sim::wl(3)];
  return o;
}
inline Gr io_graph(int tier) {
  Gr g = gen_graph(io_opts(tier));
  if (sim::wl(12) == 0) g.e.clear();
  return g;
}
inline bool same_file(const char* a, const char* b) {
  return sim::disk_size(a) == sim::disk_size(b) && (sim::disk_size(a) == 0 || !memcmp(sim::disk_data(a), sim::disk_data(b), sim::disk_size(a)));
}
}  // namespace h
