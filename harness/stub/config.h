// What cmake would generate for the benchmark drivers.
#pragma once
#define CXX_FILESYSTEM_IS_EXPERIMENTAL 0
#define CXX_FILESYSTEM_NAMESPACE std::filesystem
namespace nw::graph {
namespace bench {
constexpr const char BUILD_TYPE[] = "Simulated", CXX_VERSION[] = "13", CXX_COMPILER_ID[] = "GNU", CXX_COMPILER[] = "g++", USE_TBBMALLOC[] = "0";
}
}
