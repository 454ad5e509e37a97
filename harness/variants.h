// The same graph held in other types: 64 and 16 bit vertex ids, edges with properties, plain containers.
#pragma once
#include "job.h"
#include "nwgraph/vovos.hpp"
namespace h {
using u16 = std::uint16_t;
using VV  = std::vector<std::vector<u32>>;                       // plain nested containers of neighbours
using VVW = std::vector<std::vector<std::tuple<u32, int>>>;      // ... of neighbours and weights
template <class T> struct is_ix : std::false_type {};
template <int i, class I, class V, class... A> struct is_ix<index_adjacency<i, I, V, A...>> : std::true_type { using id = V; };
template <class G, class W>
auto weights_of(const Csr& c) { std::vector<W> w(c.w.size()); for (std::size_t i = 0; i < w.size(); i++) w[i] = (W)c.w[i]; return w; }
template <class G> struct Make;
template <int i, class I, class V, class... A> struct Make<index_adjacency<i, I, V, A...>> {
  static auto make(const Csr& c) {
    return index_adjacency<i, I, V, A...>(std::vector<V>(c.idx.begin(), c.idx.end()), std::vector<V>(c.to.begin(), c.to.end()), weights_of<V, A>(c)...);
  }
};
template <class E> struct Make<std::vector<std::vector<E>>> {
  static auto make(const Csr& c) { std::vector<std::vector<E>> g(c.idx.size() - 1); fill(g, c); return g; }
  template <class G> static void fill(G& g, const Csr& c) {
    for (u32 u = 0; u + 1 < c.idx.size(); u++)
      for (u32 k = c.idx[u]; k < c.idx[u + 1]; k++) {
        if constexpr (std::is_integral_v<E>) g[u].push_back(c.to[k]);
        else if constexpr (std::tuple_size_v<E> == 1) g[u].push_back(E(c.to[k]));
        else g[u].push_back(E(c.to[k], c.w[k]));
      }
  }
};
template <int i, class V, class... A> struct Make<index_vov<i, V, A...>> {
  static auto make(const Csr& c) {
    index_vov<i, V, A...> g(c.idx.size() - 1);
    Make<std::vector<std::vector<std::tuple<V, A...>>>>::fill(static_cast<std::vector<std::vector<std::tuple<V, A...>>>&>(g), c);
    return g;
  }
};
// the graph object is as it was made
template <class G>
void same_rows(const char* what, G& g, const Csr& c) {
  std::size_t u = 0;
  for (auto&& row : g) {
    if (u + 1 >= c.idx.size()) sim::violation("graph-changed", "%s graph: more rows than before", what);
    std::size_t k = c.idx[u];
    for (auto&& e : row) {
      u64 t; bool w = true;
      if constexpr (std::is_integral_v<std::remove_cvref_t<decltype(e)>>) t = e;
      else {
        t = std::get<0>(e);
        if constexpr (std::tuple_size_v<std::remove_cvref_t<decltype(e)>> > 1) w = k < c.w.size() && std::get<1>(e) == (std::remove_cvref_t<decltype(std::get<1>(e))>)c.w[k];
      }
      if (k >= c.idx[u + 1] || t != c.to[k]) sim::violation("graph-changed", "%s graph: vertex %zu has another neighbour (%llu)", what, u, (unsigned long long)t);
      if (!w) sim::violation("graph-changed", "%s graph: another weight on an edge of %zu", what, u);
      k++;
    }
    if (k != c.idx[u + 1]) sim::violation("graph-changed", "%s graph: vertex %zu lost a neighbour", what, u);
    u++;
  }
  if (u + 1 != c.idx.size()) sim::violation("graph-changed", "%s graph: fewer rows than before", what);
}
// largest value of the element type means "none"
template <class V>
std::vector<u32> to_u32(const V& v) {
  std::vector<u32> r(v.size());
  for (std::size_t i = 0; i < v.size(); i++) {
    using E = typename V::value_type;
    auto x = (u64)v[i];
    if constexpr (std::is_arithmetic_v<E>) r[i] = x == (u64)std::numeric_limits<E>::max() ? NONE : x >= NONE ? NONE - 1 : (u32)x;
    else r[i] = (u32)x;
  }
  return r;
}
template <class G, class H = G>
struct Held {
  G g;
  H t;
  Held(const Csr& c, const Csr& ct) : g(Make<G>::make(c)), t(Make<H>::make(ct)) {}
};
}  // namespace h
