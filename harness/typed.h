// Edges with properties of any type, all told from one number, so that a property that leaves its edge is noticed.
#pragma once
#include "nw.h"
#include <string>
namespace h {
using u16 = std::uint16_t;
template <class A>
A prop(u64 id, std::size_t col) {
  if constexpr (std::is_same_v<A, std::string>) return "edge " + std::to_string(id) + (id % 3 ? "" : " with a name too long to be kept inside");
  else return (A)(id * (col ? 7 : 1));
}
// the number, by a property wide enough to tell it
template <class A>
u64 unprop(const A& a, std::size_t col) {
  if constexpr (std::is_same_v<A, std::string>) return std::stoull(a.substr(5));
  else return (u64)a / (col ? 7 : 1);
}
template <class A> constexpr bool wide = std::is_same_v<A, std::string> || sizeof(A) >= 4;
// L: number of id columns before the properties
template <std::size_t L, class E> constexpr std::size_t columns_after = std::tuple_size_v<E> - L;
template <std::size_t L, class E, std::size_t... k>
void set_props(E& e, u64 id, std::index_sequence<k...>) { (..., (std::get<L + k>(e) = prop<std::decay_t<std::tuple_element_t<L + k, E>>>(id, k))); }
template <std::size_t L, class E>
void set_props(E& e, u64 id) { set_props<L>(e, id, std::make_index_sequence<columns_after<L, E>>{}); }
// 0 without properties
template <std::size_t L, class E>
u64 number_of(const char* cls, const E& e) {
  if constexpr (columns_after<L, E> == 0) return 0;
  else {
    u64 id = 0;
    [&]<std::size_t... k>(std::index_sequence<k...>) {
      (..., (wide<std::tuple_element_t<L + k, E>> ? void(id = unprop(std::get<L + k>(e), k)) : void()));
    }(std::make_index_sequence<columns_after<L, E>>{});
    E f = e;
    set_props<L>(f, id);
    if (!(e == f)) sim::violation(cls, "the properties of edge %llu are not together", (unsigned long long)id);
    return id;
  }
}
template <class L> using elt_of = std::decay_t<typename L::value_type>;
}  // namespace h
