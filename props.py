ASSUME = [
    "sequentially consistent memory: weak-memory reorderings are not simulated",
    "code compiled by g++ -O1 with every memory access of the library a scheduling point; a data race is judged by its outcome, not by its existence",
]
PROPS = {
    "C01": dict(sources=["c01", "job_bfs"], runs=400000, seconds=45, real="nwgraph/algorithms/bfs.hpp and experimental/algorithms/bfs.hpp, AtomicBitVector, adjacency, compressed, adaptors, libstdc++ parallel algorithms"),
}
PROPS["C02"] = dict(sources=["c02", "job_cc"], runs=400000, seconds=45, real="nwgraph/algorithms/connected_components.hpp, experimental/algorithms/connected_components.hpp, atomic.hpp, AtomicBitVector, adaptors, libstdc++ parallel algorithms")
PROPS["C03"] = dict(sources=["c03", "job_sssp"], runs=400000, seconds=45, real="nwgraph/algorithms/delta_stepping.hpp, experimental/algorithms/delta_stepping.hpp, parallel_for.hpp, atomic.hpp, adjacency, TBB concurrent_vector and queuing_mutex headers")
PROPS["C04"] = dict(sources=["c04", "job_pr"], runs=400000, seconds=45, real="nwgraph/algorithms/page_rank.hpp, experimental/algorithms/page_rank.hpp, parallel_for.hpp, timer.hpp, adjacency, libstdc++ parallel algorithms, std::async")
PROPS["C05"] = dict(sources=["c05", "job_tc"], runs=400000, seconds=45, real="nwgraph/algorithms/triangle_count.hpp, experimental/algorithms/triangle_count.hpp, intersection_size.hpp, parallel_for.hpp, cyclic and edge range adaptors, adjacency, std::async, libstdc++ parallel algorithms")
PROPS["C06"] = dict(sources=["c06", "job_bc"], runs=400000, seconds=45, real="nwgraph/algorithms/betweenness_centrality.hpp, experimental/algorithms/betweenness_centrality.hpp, AtomicBitVector, atomic.hpp, TBB concurrent_vector headers, std::async, libstdc++ parallel algorithms")
PROPS["C07"] = dict(sources=["c07", "c07_types"], runs=400000, seconds=45, real="nwgraph/build.hpp, adjacency.hpp, edge_list.hpp, containers/compressed.hpp, soa.hpp, zip.hpp, graph_base.hpp, libstdc++ parallel sort, scan, copy and for_each")
PROPS["C08"] = dict(sources=["c08"], runs=400000, seconds=45, real="nwgraph/build.hpp, adjacency.hpp, edge_list.hpp, containers/compressed.hpp, soa.hpp, zip.hpp, TBB parallel_for headers, libstdc++ parallel sort, scan, copy")
PROPS["C09"] = dict(sources=["c09"], runs=400000, seconds=45, real="nwgraph/build.hpp, adjacency.hpp, edge_list.hpp, containers/compressed.hpp, soa.hpp, TBB parallel_for headers, libstdc++ parallel for_each and copy")
PROPS["C10"] = dict(sources=["c10"], runs=400000, seconds=45, real="nwgraph/build.hpp, edge_list.hpp, containers/soa.hpp, tuple_hack.hpp, libstdc++ parallel sort, stable sort, unique, for_each, equal")
PROPS["C11"] = dict(sources=["c11"], runs=400000, seconds=45, real="nwgraph/adaptors (splittable, cyclic, cyclic neighbor, neighbor, edge, plain, vertex ranges), AtomicBitVector ranges, block, TBB parallel_for and partitioner headers")
PROPS["C12"] = dict(sources=["c12"], runs=400000, seconds=45, real="nwgraph/util/parallel_for.hpp, nwgraph/adaptors ranges, AtomicBitVector, TBB parallel_for and parallel_reduce headers")
PROPS["C13"] = dict(sources=["c13"], runs=400000, seconds=45, real="nwgraph/util/AtomicBitVector.hpp, atomic.hpp, libstdc++ parallel fill")
PROPS["C14"] = dict(sources=["c14"], runs=400000, seconds=45, real="nwgraph/util/atomic.hpp, libstdc++ atomic and atomic_ref")
JOBS = ["job_bfs", "job_cc", "job_sssp", "job_pr", "job_tc", "job_bc"]
ALGOS = "all parallel algorithms of nwgraph/algorithms and nwgraph/experimental/algorithms (breadth-first search, components, delta-stepping, PageRank, triangles, betweenness), adjacency, AtomicBitVector, atomic.hpp, adaptors, libstdc++ parallel algorithms, std::async, TBB headers"
PROPS["C15"] = dict(sources=["c15"] + JOBS, runs=400000, seconds=45, real=ALGOS)
PROPS["C16"] = dict(sources=["c16"] + JOBS, runs=400000, seconds=45, real=ALGOS)
IO = "containers/soa.hpp, aos.hpp, compressed.hpp, edge_list.hpp, graph_base.hpp, adjacency.hpp, libstdc++ file streams and stdio"
PROPS["C18"] = dict(sources=["c18"], runs=400000, seconds=45, real="nwgraph/" + IO)
PROPS["C19"] = dict(sources=["c19"], runs=400000, seconds=45, real="nwgraph/" + IO)
PROPS["C20"] = dict(sources=["c20"], runs=400000, seconds=45, real="nwgraph/io/mmio.hpp, edge_list.hpp, adjacency.hpp, containers, libstdc++ file streams and stdio")
PROPS["C21"] = dict(sources=["c21"], runs=400000, seconds=45, real="nwgraph/io/mmio.hpp, edge_list.hpp, adjacency.hpp, containers, libstdc++ file streams and stdio")
PROPS["C22"] = dict(sources=["c22"], runs=400000, seconds=45, real="nwgraph/io/MatrixMarketFile.hpp, mmio_nist.h, stdio")
PROPS["C17"] = dict(sources=["c17"], runs=400000, seconds=45, real="nwgraph/" + IO + ", build.hpp, libstdc++ parallel algorithms")
PROPS["C23"] = dict(sources=["c23"], runs=150000, seconds=30, real="nwgraph/util/timer.hpp, bench/common.hpp (time_op, Times), libstdc++ chrono and streams")
PROPS["C24"] = dict(sources=["c24"], runs=400000, seconds=45, real="bench/common.hpp (load_graph, build_adjacency, build_degrees, build_random_sources, load_sources_from_file, set_n_threads), io/mmio.hpp, edge_list.hpp, adjacency.hpp, edge range adaptor, build.hpp, TBB headers, libstdc++ streams")
DRIVERS = ["drv_bfs", "drv_bc", "drv_cc", "drv_pr", "drv_sssp", "drv_tc", "drv_conv", "drv_src"]
PROPS["C25"] = dict(sources=["c25"] + DRIVERS, runs=50000, seconds=60, libs=["-ldocopt"], real="bench/*.cpp (bfs, bc, cc, pr, sssp, tc, process_edge_list, sources), bench/common.hpp, bench/Log.hpp, docopt, date, nlohmann json, all the algorithms they call, io, containers, libstdc++ parallel algorithms, std::async, TBB headers")
PROPS["C26"] = dict(sources=["c26", "drv_sssp"], runs=400000, seconds=45, libs=["-ldocopt"], real="algorithms/{bfs,connected_components,betweenness_centrality,delta_stepping,dijkstra}.hpp (the verifiers and what they verify), bench/sssp.cpp (its verifier), adjacency.hpp, libstdc++ parallel algorithms, TBB headers")
PROPS["C27"] = dict(sources=["c27"], runs=400000, seconds=45, real="nwgraph/algorithms/{dijkstra,kruskal,prim,maximal_independent_set,dag_based_mis,jaccard,spMatspMat}.hpp, util/disjoint_set.hpp, intersection_size.hpp, adjacency.hpp, edge_list.hpp, libstdc++ sort, heap and map")
PROPS["C28"] = dict(sources=["c28"], runs=400000, seconds=45, real="nwgraph/adaptors/{bfs_range,bfs_edge_range,dag_range,back_edge_range,random_range}.hpp, adjacency.hpp, vovos.hpp, volos.hpp, libstdc++ queue and deque")
PROPS["C29"] = dict(sources=["c29"], runs=400000, seconds=45, real="nwgraph/{vovos,volos,edge_list,build}.hpp, libstdc++ vector, list and map")
