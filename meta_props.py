S, I, C, F = "schedules", "inputs", "configurations", "fault_sequences"
SCHED = "every interleaving of the worker threads (task spawning, stealing, stalls, missing workers, any pool size)"
FEW = "the tests run each version once or twice on a few small graphs under whatever schedule the machine happens to give; "

prop("C01", "Breadth-first search returns a correct breadth-first tree",
     "For every graph, source vertex and thread schedule, each breadth-first search (direction-optimizing, top-down, bottom-up, bitmap and sequential versions, for any bin count and direction-switching thresholds) returns one parent per vertex: the source is its own parent, a vertex has a parent exactly when it is reachable, and its parent is an in-neighbour exactly one level closer to the source. The search terminates, touches no memory it does not own, and leaves the graph unchanged.",
     [S, I, C], SCHED + "; every directed graph (loops, parallel edges, isolated vertices), root, number of bins, alpha and beta",
     FEW + "a parent claimed twice, a lost frontier vertex or a stale bitmap shows only under particular interleavings and frontier shapes",
     ["algorithms/bfs.hpp", "experimental/algorithms/bfs.hpp", "util/AtomicBitVector.hpp", "util/atomic.hpp", "util/parallel_for.hpp"],
     [("bfs: claim a vertex by atomic compare-and-swap, switch direction by frontier edge counts", "include/nwgraph/algorithms/bfs.hpp:160"),
      ("bfs_v1, bfs_v2, bfs_top_down, bfs_top_down_bitmap, bfs_bottom_up, bfs_v4..v9", "include/nwgraph/experimental/algorithms/bfs.hpp"),
      ("AtomicBitVector frontier", "include/nwgraph/util/AtomicBitVector.hpp")],
     observe=["the returned parent vector"])

prop("C02", "Connected components are labelled exactly",
     "For every graph and thread schedule, each connected-components algorithm (Afforest with any number of neighbour rounds, Shiloach-Vishkin, label propagation and its cyclic form, and the hooking versions) gives two vertices the same label exactly when they are connected. Directed graphs given with their transpose are labelled by weak connectivity, isolated vertices get a label of their own, and the algorithm terminates without touching memory it does not own.",
     [S, I, C], SCHED + "; every graph, symmetric or directed with transpose, and number of sampling rounds",
     FEW + "a lost union or a label written past the end needs concurrent hooking of overlapping trees",
     ["algorithms/connected_components.hpp", "experimental/algorithms/connected_components.hpp", "util/atomic.hpp"],
     [("link/compress union-find by compare-and-swap, largest-component sampling", "include/nwgraph/algorithms/connected_components.hpp:119"),
      ("lpcc, lpcc_cyclic, Afforest, ccv1, ccv5, sv_v6, sv_v8, sv_v9, compute_connected_components_v2", "include/nwgraph/experimental/algorithms/connected_components.hpp")],
     observe=["the returned component vector"])

prop("C03", "Delta-stepping returns exact shortest-path distances",
     "For every graph with non-negative edge weights, source, positive bucket width, distance type and thread schedule, each delta-stepping version returns exactly the shortest-path distance of every reachable vertex and the maximum value of the distance type for every unreachable one. It terminates and leaves the graph unchanged.",
     [S, I, C], SCHED + "; every weighted directed graph, source, delta and distance type (integers and floating point)",
     FEW + "a relaxation lost between two threads or a vertex dropped from a bucket shows only under particular interleavings",
     ["algorithms/delta_stepping.hpp", "experimental/algorithms/delta_stepping.hpp", "util/atomic.hpp", "util/parallel_for.hpp"],
     [("relax: compare-and-swap minimum, then push to the bucket of the new distance", "include/nwgraph/algorithms/delta_stepping.hpp"),
      ("delta_stepping_v6, v8, v9, v10, v11", "include/nwgraph/experimental/algorithms/delta_stepping.hpp")],
     observe=["the returned distance vector"])

prop("C04", "PageRank stops within the stated distance of the fixed point",
     "For every graph, damping factor, tolerance, thread count and schedule, a PageRank call that stops because its error fell below the tolerance leaves scores whose total distance from the exact fixed point (vertices without out-edges contributing nothing) is at most what that tolerance implies. Scores are finite, one per vertex, and the same whichever version computes them, up to the tolerance.",
     [S, I, C], SCHED + "; every directed graph with its out-degrees, damping factor, tolerance and thread count",
     FEW + "a contribution read half-updated, lost, or a partition of the vertices that misses or repeats one shows only for particular sizes, thread counts and interleavings",
     ["algorithms/page_rank.hpp", "experimental/algorithms/page_rank.hpp", "adaptors/edge_range.hpp", "util/parallel_for.hpp"],
     [("page_rank: contribution pass, gather pass and error reduction per iteration", "include/nwgraph/algorithms/page_rank.hpp:90"),
      ("page_rank_v1 .. v14", "include/nwgraph/experimental/algorithms/page_rank.hpp")],
     observe=["the page_rank vector"])

prop("C05", "Every triangle is counted exactly once",
     "For every simple undirected graph given as its upper or lower triangle with sorted neighbourhoods, each triangle counting version returns exactly the number of triangles, for any thread count, cyclic stride, execution policies and thread schedule. The versions using blocked, cyclic and edge-split partitions of the work cover every edge exactly once.",
     [S, I, C], SCHED + "; every simple graph, triangle side the version accepts, thread count, stride and execution policy",
     FEW + "a block boundary that skips or repeats a vertex needs particular sizes, thread counts or splits",
     ["algorithms/triangle_count.hpp", "experimental/algorithms/triangle_count.hpp", "util/intersection_size.hpp", "adaptors/cyclic_range_adaptor.hpp", "adaptors/cyclic_neighbor_range.hpp", "adaptors/edge_range.hpp"],
     [("triangle_count(G, threads) and triangle_count_async: block partition and sum of futures", "include/nwgraph/algorithms/triangle_count.hpp:71"),
      ("triangle_count_v1 .. v15, edgesplit, edgesplit_upper, edgerange", "include/nwgraph/experimental/algorithms/triangle_count.hpp"),
      ("intersection_size under every execution policy", "include/nwgraph/util/intersection_size.hpp")],
     observe=["the returned count"])

prop("C06", "Betweenness centrality equals Brandes' dependency sums",
     "For every unweighted graph, list of sources, thread count, execution policies, score and path-count types and thread schedule, each betweenness centrality version returns for every vertex the sum over the given sources of its shortest-path dependencies (up to floating-point tolerance), divided by the largest score when normalisation is asked for. The exact version uses every vertex as a source; versions differ only in whether a source is credited with its own dependency.",
     [S, I, C], SCHED + "; every directed or symmetric graph, list of sources with repeats, thread count and accumulator type",
     FEW + "path counts or dependencies lost between threads that reach the same vertex, or a successor bit lost in a shared word, need particular interleavings",
     ["algorithms/betweenness_centrality.hpp", "experimental/algorithms/betweenness_centrality.hpp", "util/AtomicBitVector.hpp", "util/atomic.hpp"],
     [("brandes_bc: levels by compare-and-swap, successor bitmap, backward accumulation, atomic add of scores", "include/nwgraph/algorithms/betweenness_centrality.hpp:220"),
      ("bc2_v0 .. v4", "include/nwgraph/experimental/algorithms/betweenness_centrality.hpp:1232")],
     observe=["the returned score vector"])

prop("C07", "Building a compressed graph keeps every edge with its properties",
     "For every edge list (directed, undirected or bipartite, with or without edge properties), building an adjacency or biadjacency structure in parallel gives one row per vertex and exactly the edges of the list, each in the row of the indexed end, in both directions when undirected, with its own property values, and in neighbour order when sorting is asked for. The edge list is left unchanged and counts of vertices and edges agree with the rows.",
     [S, I, C], SCHED + "; every edge list, index side, directedness, property arity, sort flag, execution policy and construction route",
     FEW + "an edge lost by a racy scatter or scan, or a property separated from its edge by sorting, needs particular sizes and schedules",
     ["build.hpp", "adjacency.hpp", "edge_list.hpp", "containers/compressed.hpp", "containers/soa.hpp", "containers/zip.hpp", "graph_base.hpp"],
     [("fill_directed, fill_undirected, fill, fill_biadjacency, push_back_fill", "include/nwgraph/build.hpp"),
      ("indexed_struct_of_arrays", "include/nwgraph/containers/compressed.hpp"),
      ("index_adjacency and index_biadjacency constructors", "include/nwgraph/adjacency.hpp")],
     observe=["rows by iteration, the index array, num_vertices, num_edges"])

prop("C08", "Relabelling and permuting by degree preserve the graph",
     "For every graph and edge list and every thread schedule, relabelling by degree, by a given permutation or by given degrees, and permuting or sorting a compressed structure by degree, apply one permutation consistently: it is a permutation of the vertices, orders them by degree in the requested direction, and every edge survives exactly once under it with its own property values. Sorting neighbour lists only reorders edges within each row.",
     [S, I, C], SCHED + "; every graph or edge list, direction, index side, property arity and execution policy",
     FEW + "an inconsistent comparator, an inverse applied for a permutation, or a relabelled end missed by one thread needs particular degrees and schedules",
     ["build.hpp", "containers/compressed.hpp", "edge_list.hpp", "containers/soa.hpp", "containers/zip.hpp"],
     [("relabel, relabel_by_degree, perm_by_degree", "include/nwgraph/build.hpp"),
      ("permute_by_degree, sort_by_degree, relabel_to_be_indexed, sort_to_be_indexed", "include/nwgraph/containers/compressed.hpp")],
     observe=["the entries before and after", "the returned permutation"])

prop("C09", "Degrees are exact however they are computed",
     "For every graph and thread schedule, each way of computing vertex degrees, from an edge list on either side or both, from an adjacency or biadjacency, sequentially or in parallel, returns for every vertex exactly the number of edge ends listed at it. Counting in parallel loses no increment.",
     [S, I, C], SCHED + "; every edge list or compressed graph, side and execution policy",
     FEW + "a lost increment needs two threads at the same vertex at the same moment",
     ["build.hpp", "adjacency.hpp", "containers/compressed.hpp"],
     [("degrees of an edge list: atomic fetch-and-add per edge end", "include/nwgraph/build.hpp"), ("degrees of a compressed graph: difference of the row index", "include/nwgraph/containers/compressed.hpp")],
     observe=["the returned degree vector"])

prop("C10", "Edge-list transformations keep exactly the edges they should",
     "For every edge list and thread schedule, swapping to a triangle orders the two ends of each edge as asked and changes nothing else; sorting by one or both ends reorders whole edges with their properties (stably where promised); removing adjacent duplicates keeps the first of each run; removing self-loops removes exactly the loops. Two edge lists compare equal exactly when they hold the same edges, with the same properties, in the same order.",
     [S, I, C], SCHED + "; every edge list, with or without properties, index side, triangle side and execution policy",
     FEW + "parallel sorts, unique and comparisons switch algorithm by size and split by schedule, and proxy iterators can tear an edge from its property",
     ["build.hpp", "edge_list.hpp", "containers/soa.hpp", "util/tuple_hack.hpp"],
     [("swap_to_triangular, sort_by, stable_sort_by, lexical_sort_by, lexical_stable_sort_by, uniq, remove_self_loops", "include/nwgraph/build.hpp"),
      ("struct_of_arrays iterators, swap and comparison", "include/nwgraph/containers/soa.hpp")],
     observe=["the edges in order"])

prop("C11", "Splitting a range covers every element exactly once",
     "However a splittable range (splittable, cyclic, cyclic neighbor, neighbor, edge, plain and vertex ranges, the set bits of a bitmap, and block partitions) is divided, by hand in any order or by the task scheduler under any partitioner and schedule, the pieces together hold every element of the range exactly once, and the size a piece reports is the number of elements it gives. Neighbor and edge ranges give each vertex its own neighbourhood and each edge its own properties.",
     [S, I, C], SCHED + "; every range kind, size, starting offset, cutoff or stride, and sequence of splits",
     FEW + "an element dropped or repeated at a split boundary needs a particular size, cutoff and split sequence",
     ["adaptors/splittable_range_adaptor.hpp", "adaptors/cyclic_range_adaptor.hpp", "adaptors/cyclic_neighbor_range.hpp", "adaptors/neighbor_range.hpp", "adaptors/edge_range.hpp", "adaptors/plain_range.hpp", "adaptors/vertex_range.hpp", "util/AtomicBitVector.hpp", "util/util_par.hpp"],
     [("splitting constructors, is_divisible, size and empty of each range", "include/nwgraph/adaptors/splittable_range_adaptor.hpp"),
      ("strided ranges split by doubling the stride", "include/nwgraph/adaptors/cyclic_range_adaptor.hpp"),
      ("non_zero_range: split on word boundaries", "include/nwgraph/util/AtomicBitVector.hpp:215")],
     observe=["the elements visited in each piece"])

prop("C12", "Parallel loops and reductions visit every element exactly once",
     "For every range, operator and thread schedule, parallel_for applies the operator exactly once to every element (unpacked when the element is a tuple) before it returns, and parallel_reduce returns the initial value combined exactly once with the result for each element, for any associative and commutative reduction. This holds for operators that run parallel loops of their own and for several callers at once. An exception thrown by the operator reaches the caller.",
     [S, I, C], SCHED + "; every range kind, size and cutoff, initial value, reduction and throwing element",
     FEW + "an initial value or partial result counted twice appears only when a piece is stolen while its sibling still runs",
     ["util/parallel_for.hpp", "adaptors/splittable_range_adaptor.hpp", "adaptors/edge_range.hpp", "adaptors/neighbor_range.hpp", "util/AtomicBitVector.hpp"],
     [("parallel_for, parallel_reduce, parallel_for_sequential", "include/nwgraph/util/parallel_for.hpp")],
     observe=["operator calls", "the returned reduction"])

prop("C13", "The concurrent bitmap is linearizable",
     "For every number of bits, word type and schedule of concurrent set and get calls on a bitmap, each call takes effect at one moment between its start and end: setting a bit is reported as new to exactly one caller, a bit once seen set stays set, and no other bit changes. Iterating afterwards, or over any split of its non-zero range, gives exactly the set bits in order; moving a bitmap moves its bits and leaks nothing.",
     [S, I], "every interleaving of concurrent set and get calls on one bitmap; every size (word boundaries included), word width and history",
     FEW + "a lost bit needs two threads setting different bits of one word at the same moment",
     ["util/AtomicBitVector.hpp", "util/atomic.hpp"],
     [("get, set, atomic_get, atomic_set, clear, non_zero_iterator, non_zeros, move", "include/nwgraph/util/AtomicBitVector.hpp")],
     observe=["the value returned by each call", "iteration after the calls"])

prop("C14", "Atomic helpers are atomic for every element type",
     "For every schedule of concurrent calls on one variable of integral, floating-point or std::atomic type, fetch_add, fetch_or, compare-and-swap, load and store are indivisible: no update is lost, each returns the value just before it, a compare-and-swap succeeds only against the value it expected and reports the current value when it fails, and a minimum kept by compare-and-swap ends at the smallest value offered.",
     [S, I], "every interleaving of concurrent operations on one variable; every supported element type and operation mix",
     FEW + "a read-modify-write done as separate steps loses updates only under particular interleavings",
     ["util/atomic.hpp"],
     [("load, store, cas, fetch_add, fetch_or on plain and atomic types", "include/nwgraph/util/atomic.hpp")],
     observe=["values returned by each operation", "the final value"])

prop("C15", "Concurrent callers of algorithms do not affect each other",
     "For every set of threads, or of tasks of the pool itself, that call parallel algorithms at the same time (breadth-first search, components, shortest paths, PageRank, triangles, betweenness) on the same or different graphs sharing one task pool, each call returns a result that is correct for its own graph and arguments, every call terminates, and the graphs are unchanged afterwards.",
     [S, I, C], "every interleaving of several callers sharing one task pool, where a caller waiting for its own tasks may run another caller's; every mix of algorithms, graphs and pool sizes",
     "no test calls two algorithms at once; hidden static state or a task of one call run inside another shows only when the calls overlap",
     ["algorithms/bfs.hpp", "algorithms/connected_components.hpp", "algorithms/delta_stepping.hpp", "algorithms/page_rank.hpp", "algorithms/triangle_count.hpp", "algorithms/betweenness_centrality.hpp", "adjacency.hpp"],
     [("graphs are read through const access; algorithms keep all state in locals", "include/nwgraph/algorithms/delta_stepping.hpp"), ("versions under experimental", "include/nwgraph/experimental/algorithms/bfs.hpp")],
     observe=["each call's result", "the graphs after all calls"])

prop("C16", "A failed allocation or thread start never yields a wrong result",
     "For every parallel algorithm, graph, schedule and point at which a memory allocation or the start of a thread fails, the call either still returns the exact result, or throws, or stops the program loudly; it never returns a wrong or partial result. When it throws, no memory it allocated is lost, the graph is unchanged, and the same call made again without faults returns the exact result.",
     [F, S, I, C], "every allocation or thread start as the one that fails, in every schedule of every algorithm",
     "no test makes an allocation or a thread start fail, and the point of failure is one of thousands per call",
     ["algorithms/bfs.hpp", "algorithms/connected_components.hpp", "algorithms/delta_stepping.hpp", "algorithms/page_rank.hpp", "algorithms/triangle_count.hpp", "algorithms/betweenness_centrality.hpp", "util/AtomicBitVector.hpp"],
     [("futures collected with get(): worker exceptions reach the caller", "include/nwgraph/algorithms/betweenness_centrality.hpp:220"), ("triangle_count_async futures", "include/nwgraph/algorithms/triangle_count.hpp:71"), ("owned buffers released on unwinding", "include/nwgraph/util/AtomicBitVector.hpp")],
     observe=["result or exception", "live memory after the call", "the graph", "the result of a later call"])

prop("C17", "A failed allocation leaves graph containers consistent",
     "For every container or graph and every point at which an allocation fails: growing an edge list, struct of arrays or array of structs by push_back, resize or reserve either happens completely or throws and changes nothing, so the columns always have one length and the counts match the edges. Building, copying, loading, sorting or relabelling a graph returns the exact result, or throws, or stops the program loudly; the input is unharmed, no memory is lost and a repeated call succeeds.",
     [F, S, I], "every allocation as the one that fails, in every growth, construction, copy, load, sort and relabel operation on every container kind and size",
     "no test makes an allocation fail; a column that grew while its neighbour did not is visible only afterwards",
     ["containers/soa.hpp", "containers/aos.hpp", "containers/compressed.hpp", "edge_list.hpp", "adjacency.hpp", "build.hpp"],
     [("push_back, resize, reserve of all columns", "include/nwgraph/containers/soa.hpp"), ("edge list push_back and vertex counts", "include/nwgraph/edge_list.hpp"), ("constructors and copy from arrays", "include/nwgraph/containers/compressed.hpp")],
     observe=["contents, column lengths and counts after the exception", "live memory", "the result of the repeated call"])

prop("C18", "A serialized graph is read back exactly",
     "For every edge list, container, adjacency or biadjacency structure, with or without edge properties, serializing it and deserializing the file or stream into an object of the same type (fresh, or already holding something else) gives an equal object: same counts, rows, order and property values. The original is unchanged, several objects in one stream come back in order, saving the loaded object gives the same bytes. This holds however the system splits or interrupts reads and writes, and for concurrent savers and loaders of different files.",
     [I, F, S], "every object kind, size and content; every split, short or interrupted read and write; concurrent clients",
     "the tests save and load one small graph and the kernel never splits a transfer there",
     ["containers/soa.hpp", "containers/aos.hpp", "containers/compressed.hpp", "edge_list.hpp", "graph_base.hpp", "adjacency.hpp"],
     [("serialize and deserialize of columns", "include/nwgraph/containers/soa.hpp"), ("serialize and deserialize of index and columns", "include/nwgraph/containers/compressed.hpp"), ("vertex counts", "include/nwgraph/graph_base.hpp")],
     observe=["the loaded object", "the file bytes"])

prop("C19", "A failed or mismatched serialization never goes unnoticed",
     "For every object and every fault while it is saved (failed write, full disk, failed open or close), the caller gets an exception, or the complete file is on disk. For every file that cannot be opened, is truncated at any byte (as after a crash), fails while being read, or was written from a container whose type mark, column count or element size does not match, loading throws; it never yields a silently different object. Nothing stays open, and the same call succeeds once the fault is gone.",
     [F, I], "every point of failure of every write, read, open and close; every truncation point; every crash point; every pair of unlike types",
     "no test injects an I/O error, fills a disk or truncates a file",
     ["containers/soa.hpp", "containers/aos.hpp", "containers/compressed.hpp", "edge_list.hpp", "graph_base.hpp", "adjacency.hpp"],
     [("stream checks after reading and writing", "include/nwgraph/containers/soa.hpp"), ("type mark and sizes checked on load", "include/nwgraph/containers/compressed.hpp"), ("serialize(file), deserialize(file)", "include/nwgraph/edge_list.hpp")],
     observe=["exception or bytes on disk", "exception or loaded object", "open files"])

prop("C20", "Matrix Market files hold exactly the graph written or read",
     "For every edge list or adjacency written as a Matrix Market file, with or without weights, symmetric or general, one- or zero-based index side, the file is well formed and reading it gives exactly the same edges and weights. For every well-formed file (pattern, integer or real; general or symmetric; with comments), read_mm into a directed or undirected edge list gives exactly the entries of the file, a symmetric file's entries once or in both directions as the list's directedness asks, and vectors are read exactly, however the system splits reads and writes.",
     [I, F], "every graph, writer, weight type, header kind and list directedness; every short or interrupted transfer",
     "the tests read a handful of files and write none back with weights that need their full precision",
     ["io/mmio.hpp"],
     [("read_mm", "include/nwgraph/io/mmio.hpp"), ("write_mm of edge lists and adjacencies", "include/nwgraph/io/mmio.hpp"), ("read_mm_vector", "include/nwgraph/io/mmio.hpp")],
     observe=["the file text", "the edge list read"])

prop("C21", "A damaged Matrix Market file or failed transfer is reported",
     "For every fault while a Matrix Market file is written (failed write, full disk, failed open or close) the caller gets an exception or the complete file is on disk. For every file that is missing, fails while read, is cut at any point up to the start of its last line, lacks an entry, has an entry that is unreadable or has an index of zero, or has an unknown or damaged header or size line, reading throws; it never returns edges that are not in the file. The same call succeeds once the fault is gone, and nothing stays open.",
     [F, I], "every point of failure of write, read, open and close; every truncation point and damaged entry of every file",
     "no test damages a file or makes a transfer fail",
     ["io/mmio.hpp"],
     [("header, size line and entries checked", "include/nwgraph/io/mmio.hpp"), ("writers check the stream", "include/nwgraph/io/mmio.hpp")],
     observe=["exception or bytes on disk", "exception or edges read", "open files"])

prop("C22", "A mapped Matrix Market file gives every entry exactly once",
     "For every well-formed Matrix Market file, with or without a final newline and wherever its last page ends, iterating a mapped file, or any set of consecutive pieces it is divided into, gives every entry with its row, column and value exactly once and in order, and reads no byte outside the mapping. Releasing it, early or at the end of its life, unmaps and closes everything. A file that cannot be opened or mapped stops the program loudly or throws; it is never read as something else.",
     [I, F, S], "every file, number and position of pieces, page alignment of its end, concurrent readers of pieces, and failing open, stat or map call",
     "the tests open a single small file whose end is far from a page boundary, and no call fails there",
     ["io/MatrixMarketFile.hpp", "io/mmio_nist.h"],
     [("mmap of the file and iterator over entries", "include/nwgraph/io/MatrixMarketFile.hpp"), ("header reading", "include/nwgraph/io/mmio_nist.h")],
     observe=["the entries read by each piece", "mappings and handles left"])

prop("C23", "Elapsed times are the time that passed, whatever happens to the wall clock",
     "For every clock history (the wall clock stepped forward or back at any moment, any scheduling delay), every duration a timer, a life timer, time_op or the benchmark's Times reports lies between the monotonic time that certainly passed inside the measured section and the time that passed around it. Times keeps exactly the samples recorded for each file, version and thread count, and the table it prints gives their minimum, mean and maximum; a verification passed to record is not measured. A timer prints its own name, duration and unit.",
     [F, S, C], "wall-clock steps of any size and moment, delays, work and sleep of any length, every timer resolution, histories of start, stop and lap",
     "the tests never step a clock and cannot: they run on the machine's own",
     ["util/timer.hpp", "bench/common.hpp"],
     [("timer, life_timer and their printed forms", "include/nwgraph/util/timer.hpp"), ("time_op, Times::record, Times::print", "bench/common.hpp")],
     observe=["reported durations", "printed tables"])

prop("C24", "Benchmark inputs are loaded exactly or refused",
     "For every graph file, serialized or Matrix Market, however its transfers are shortened or interrupted, load_graph returns exactly the edges, values and vertex count the file holds. For a file that is missing, not a graph, cut anywhere before its last entry or failing while read, it throws; so does a source file that is missing, cut, or holds another number of sources than asked for. build_degrees counts every edge of every vertex exactly once and random sources are vertices with an edge, and the same seed gives the same sources on every schedule and from any number of concurrent callers. A thread limit is in force exactly while its control lives.",
     [F, S, I], "every graph and file form, short and interrupted transfers, read and open failures, truncation at any point, thread schedules and concurrent callers",
     "no test loads a damaged file, and none runs the benchmark's loaders at all",
     ["bench/common.hpp", "io/mmio.hpp", "edge_list.hpp", "build.hpp"],
     [("load_graph, load_sources_from_file", "bench/common.hpp"), ("build_degrees, build_random_sources", "bench/common.hpp"), ("set_n_threads, parse_n_threads, parse_ids", "bench/common.hpp"), ("mm_read_entry", "include/nwgraph/io/mmio.hpp")],
     observe=["edges and values loaded, or the exception", "degrees, sources", "limit in force"])

prop("C25", "A benchmark driver runs, verifies and reports every configuration asked for",
     "For every command line, graph, thread schedule and number of threads, each benchmark driver (bfs, bc, cc, pr, sssp, tc) runs to its end inside its memory, reports no failed verification, and its table and log have one entry for every combination of file, version and thread count (and, in the log, every trial), with times that passed. A damaged or missing graph file, or an unknown input, stops it with an error and no table. The converter writes exactly the edges of its input or fails, and the source checker reports exactly the sources that differ.",
     [S, C, F, I], "command lines over every version, thread count, trial count, source option and storage format, input files in both forms, schedules, wall-clock steps, disk faults",
     "no test starts a driver",
     ["bench/bfs.cpp", "bench/bc.cpp", "bench/cc.cpp", "bench/pr.cpp", "bench/sssp.cpp", "bench/tc.cpp", "bench/common.hpp", "bench/Log.hpp", "algorithms/*.hpp", "experimental/algorithms/*.hpp"],
     [("main of each driver", "bench/bfs.cpp"), ("Times and the log", "bench/Log.hpp"), ("converter", "bench/process_edge_list.cpp"), ("source checker", "bench/sources.cpp")],
     observe=["exit status and what is printed", "log file", "converted files"])

prop("C26", "Verifiers accept every right result and no wrong one",
     "For every graph, schedule and number of concurrent callers, BFSVerifier, CCVerifier, BCVerifier and the driver's SSSP verifier accept exactly the results that are right: any breadth-first tree from the source, any labelling equal exactly on connected vertices, scores within the stated tolerance of the exact ones whatever the score and path-count types, and the exact distances. A result in which any entry was overwritten with another value that makes it wrong is rejected. The result and the graph are left unchanged.",
     [S, I, F], "results of the parallel algorithms under every schedule, with any number of entries overwritten by other entries, vertices, marks or offsets; several callers on one graph; float and double scores, integral and floating path counts",
     "the tests pass each verifier a few right results and never a wrong one",
     ["algorithms/bfs.hpp", "algorithms/connected_components.hpp", "algorithms/betweenness_centrality.hpp", "bench/sssp.cpp"],
     [("BFSVerifier", "include/nwgraph/algorithms/bfs.hpp"), ("CCVerifier", "include/nwgraph/algorithms/connected_components.hpp"), ("BCVerifier", "include/nwgraph/algorithms/betweenness_centrality.hpp"), ("SSSPVerifier, dijkstra oracle", "bench/sssp.cpp")],
     observe=["the verdict"])

prop("C27", "Sequential algorithms are exact for concurrent callers and failing allocations",
     "For every graph and any number of concurrent callers on shared graphs: dijkstra gives the exact distance of every vertex in any arithmetic distance type (its maximum where unreachable); kruskal, on any edge list, weight type and comparison, and prim, from any source and weight function, give a spanning forest or tree of least (or, in the order given, greatest) weight made of edges of the graph; maximal_independent_set and dag_based_mis give an independent set no vertex can be added to; spMatspMat and spMatspMatT give exactly the entries of the product over the operations given; jaccard_similarity writes exactly the similarity of each pair of neighbours. A call hit by a failed allocation throws bad_alloc, leaks nothing, leaves the graphs as they were, disturbs no other call, and made again gives the exact result.",
     [S, F, C], "preemption of each caller at any access, one failed allocation at any point of any caller",
     "each test makes one call, alone, and none lets an allocation fail",
     ["algorithms/dijkstra.hpp", "algorithms/kruskal.hpp", "algorithms/prim.hpp", "algorithms/maximal_independent_set.hpp", "algorithms/dag_based_mis.hpp", "algorithms/jaccard.hpp", "algorithms/spMatspMat.hpp", "util/disjoint_set.hpp", "util/intersection_size.hpp"],
     [("dijkstra", "include/nwgraph/algorithms/dijkstra.hpp"), ("kruskal, disjoint_union_find", "include/nwgraph/algorithms/kruskal.hpp"), ("prim", "include/nwgraph/algorithms/prim.hpp"), ("maximal_independent_set", "include/nwgraph/algorithms/maximal_independent_set.hpp"), ("dag_based_mis", "include/nwgraph/algorithms/dag_based_mis.hpp"), ("spMatspMat, spMatspMatT", "include/nwgraph/algorithms/spMatspMat.hpp"), ("jaccard_similarity", "include/nwgraph/algorithms/jaccard.hpp")],
     observe=["result or exception of each call", "the shared graphs afterwards", "live heap blocks"])

prop("C28", "Traversals in progress at once do not disturb each other",
     "For every graph, any number of traversal ranges may be in progress at once, advanced in any order by one caller or by several, left unfinished, or taken up again with begin(): topdown_bfs_range visits every vertex reachable from its seed exactly once and level by level; bfs_edge_range gives exactly one edge into each reachable vertex but the seed, from a vertex one level up, with its properties, level by level; dag_range over an acyclic graph gives every edge exactly once, edges into a vertex before edges out of it, and says ready exactly at the last edge into a vertex; back_edge_range, eager or asked for, gives every edge of the graph in place, then one edge back for each edge without another the other way, and finds the back edge of each edge; random_range gives a walk along edges of exactly the length asked for, the same for the same seed. A traversal hit by a failed allocation throws, leaks nothing and disturbs no other one; the graph is left unchanged.",
     [S, F, C], "preemption of each caller at any access, interleaved and abandoned traversals, one failed allocation at any point",
     "each test runs one traversal to its end, alone",
     ["adaptors/bfs_range.hpp", "adaptors/bfs_edge_range.hpp", "adaptors/dag_range.hpp", "adaptors/back_edge_range.hpp", "adaptors/random_range.hpp"],
     [("topdown_bfs_range", "include/nwgraph/adaptors/bfs_range.hpp"), ("bfs_edge_range", "include/nwgraph/adaptors/bfs_edge_range.hpp"), ("dag_range", "include/nwgraph/adaptors/dag_range.hpp"), ("back_edge_range", "include/nwgraph/adaptors/back_edge_range.hpp"), ("random_range", "include/nwgraph/adaptors/random_range.hpp")],
     observe=["items each traversal gives, or its exception", "the shared graphs and lists afterwards", "live heap blocks"])

prop("C29", "Uncompressed graphs and vertex numberings are exact for concurrent builders",
     "For every edge list, directed or undirected, with or without properties, and any number of callers building from the same ones: a vov or adj_list holds exactly the edges of the list, both ways for an undirected one, with their properties, and counts them; edges pushed one by one give the same graph, with rows for all vertices up to the last one with an edge, and a push_back hit by a failed allocation changes no edge and can be repeated; push_back_fill over plain containers gives exactly the edges by the end and directedness asked for; copies and moves are equal; make_index_map, make_property_edges, make_index_edges and data_to_graph_edge_list give each name its place (the last one, if repeated) and each edge its ends and properties. Edge lists and user data stay unchanged, a failed call leaks nothing and disturbs no other.",
     [S, F, C], "preemption of each caller at any access, one failed allocation at any point of any caller",
     "each test builds one graph of a fixed list, alone, and none lets an allocation fail",
     ["vovos.hpp", "volos.hpp", "build.hpp", "edge_list.hpp"],
     [("index_vov", "include/nwgraph/vovos.hpp"), ("index_adj_list", "include/nwgraph/volos.hpp"), ("fill_adj_list, push_back_fill, make_index_map, make_property_edges, make_index_edges, data_to_graph_edge_list", "include/nwgraph/build.hpp")],
     observe=["rows of each graph built, or the exception", "the shared edge lists and user data afterwards", "live heap blocks"])

PURE = "Sequential code with no schedule, clock, I/O or fault in it: "
na("N03", "Maximum flow equals minimum cut",
   "For every network with non-negative capacities and every source and sink, the flow value returned equals the capacity of a minimum cut.",
   ["algorithms/max_flow.hpp", "algorithms/boykov_kolmogorov.hpp"], [("max_flow", "include/nwgraph/algorithms/max_flow.hpp"), ("bk_maxflow", "include/nwgraph/algorithms/boykov_kolmogorov.hpp")],
   PURE + "augmenting-path search on one thread; a pure function of the network.")
na("N04", "k-core and k-truss keep exactly the maximal subgraph",
   "For every simple graph and k, k-core keeps exactly the vertices of the maximal subgraph of minimum degree k, and k-truss the edges supported by k-2 triangles.",
   ["algorithms/k_core.hpp", "algorithms/k_truss.hpp"], [("k_core", "include/nwgraph/algorithms/k_core.hpp")],
   PURE + "a peeling loop on one thread; a pure function of graph and k.")
na("N05", "Colorings are proper",
   "For every graph, Jones-Plassmann coloring gives adjacent vertices different colours.",
   ["experimental/algorithms/jones_plassmann_coloring.hpp"], [("jones_plassmann_coloring", "include/nwgraph/experimental/algorithms/jones_plassmann_coloring.hpp")],
   PURE + "the shipped versions run their rounds on one thread with fixed priorities; pure functions of the graph. The independent sets are decided in C27.")
na("N07", "Depth-first and filtered ranges visit every reachable vertex or edge once",
   "Iterating a depth-first, bottom-up or filtered breadth-first range over a graph yields each reachable vertex (or edge) exactly once, in an order the traversal allows.",
   ["adaptors/dfs_range.hpp", "adaptors/new_dfs_range.hpp", "adaptors/filtered_bfs_range.hpp"],
   [("dfs_range", "include/nwgraph/adaptors/new_dfs_range.hpp")],
   PURE + "input iterators over one stack, used by one thread; pure functions of graph and seed vertex. The breadth-first, topological and random-walk ranges are decided in C28 with several in progress.")
