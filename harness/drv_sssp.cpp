// The sssp.exe driver, its main() under another name.
#include "nw.h"
#define main           drv_sssp_main
#define print_n_ranks  drv_sssp_print_n_ranks
#include "sssp.cpp"
// its verifier, for C26
bool drv_sssp_verify(const nw::graph::adjacency<0, std::uint32_t>& g, std::uint32_t source, const std::vector<std::uint64_t>& dist, bool verbose) {
  return SSSPVerifier(g, source, dist, verbose, [](auto& e) -> std::uint32_t { return std::get<1>(e); });
}
