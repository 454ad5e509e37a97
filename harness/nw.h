#pragma once
#include "nwgraph/edge_list.hpp"
#include "nwgraph/adjacency.hpp"
#include "nwgraph/build.hpp"
#include "nwgraph/graph_concepts.hpp"
#include "graphs.h"
namespace h {
using namespace nw::graph;
template <int idx>
adjacency<idx> to_adj(const Csr& c) { return adjacency<idx>(c.idx, c.to); }
template <int idx, class W>
adjacency<idx, W> to_adjw(const Csr& c) {
  std::vector<W> w(c.w.begin(), c.w.end());
  return adjacency<idx, W>(c.idx, c.to, w);
}
}  // namespace h
