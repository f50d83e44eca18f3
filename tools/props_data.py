WIP = "not claimed yet: the static check for it is still being built"
FE = "include/find_embedding/"
BC = "include/busclique/"

P("C01", "Search options take effect and have their documented defaults",
  "Every option a caller passes to find_embedding (or to the miner class) is the value that governs the search, "
  "whatever the value, including zero, False and empty ones; an option left out takes its documented default; an "
  "option name that is not documented is rejected with an exception. The same holds inside the library: a copy of the parameters "
  "made for a sub-search carries every option over.",
  ["inputs", "configurations"], "every combination of options and values",
  "Tests pass a handful of option combinations and assert success rates, so an option that is dropped, swapped with "
  "another or reset on copy is invisible to them.",
  ["minorminer/_minorminer.pyx", "minorminer/_minorminer_h.pxi", FE + "util.hpp", FE + "find_embedding.hpp"],
  [("_input_parser", "minorminer/_minorminer.pyx"), ("optional_parameters", FE + "util.hpp")], 
  check=("provenance dataflow over the option parser and keyword calls; copies, writes and reads of option fields over clang's program",
         "Every documented option, every store and guard in the parser, every constructor, read and compile-time dispatch of the "
         "native parameters. Whether the heuristic makes good use of an option is not decided."))

P("C02", "No native failure terminates the Python process",
  "Whatever the C++ core raises (timeout, interrupt, corrupt parameters, failed initialization, internal "
  "inconsistency, allocation failure, or anything else), on any thread and from any entry point of the compiled "
  "extensions, the caller gets a Python exception and the interpreter keeps running. A timeout becomes TimeoutError, "
  "an interrupt KeyboardInterrupt, corrupt parameters ValueError, a failed initialization RuntimeError, and an "
  "internal inconsistency AssertionError.",
  ["inputs", "schedules", "fault_sequences"], "every call sequence, every point at which native code can throw",
  "A test exercises a throw at a few points; which exception can reach which boundary is a property of all call "
  "paths, and a miss kills the interpreter.",
  ["minorminer/_minorminer.pyx", "minorminer/_minorminer_h.pxi", "minorminer/busclique_h.pxi",
   "minorminer/src/pyutil.hpp", FE + "pathfinder.hpp", FE + "find_embedding.hpp", BC + "clique_cache.hpp"],
  [("handle_exceptions", "minorminer/src/pyutil.hpp"), ("except + declarations", "minorminer/_minorminer_h.pxi, minorminer/busclique_h.pxi")],
  check=("interprocedural exception-flow analysis on clang's resolved program",
         "Sound for C++ throw expressions, std throwing calls and allocation as modelled in engine/exflow.py, over the "
         "generated Cython C++ and all headers; assumes other std functions do not throw. Does not cover crashes that "
         "are not exceptions."))

P("C03", "The multithreaded search is free of data races",
  "With threads > 1, no two threads running at the same time access the same memory with one of them writing it, "
  "unless both hold the same lock; every lock taken is released on every path. The work handed to the workers covers "
  "the data exactly once, and every worker has finished before its results are read or a call returns.",
  ["schedules", "inputs"], "every interleaving of the worker threads, for every number of threads and graph",
  "Race outcomes depend on the interleaving; tests see a few schedules on small graphs and cannot show absence.",
  [FE + "pathfinder.hpp", FE + "embedding_problem.hpp", FE + "embedding.hpp"],
  [("exec_chunked / exec_indexed / run_in_thread", FE + "pathfinder.hpp")],
  check=("static race analysis: thread-escape, lockset and index-partition effects over the call graph of every task",
         "Decides which memory each worker task may read or write (receiver paths, partition indices, lock sets), over "
         "every function reachable from a task in clang's resolved program; the fork/join structure is checked on the "
         "control-flow graph. Assumes std containers behave as specified."))

P("C04", "Equal seeds give equal results",
  "For a fixed seed, equal inputs and single-threaded search, every embedding function that takes a seed returns the "
  "same result in every process: the only source of randomness is the seeded generator, and no result depends on the "
  "clock (other than a timeout that cuts the search short), on addresses, on uninitialized memory, on hash "
  "randomization, or on earlier calls (apart from the generator a miner object carries from one of its searches to the "
  "next, and from results kept in the busclique cache on disk).",
  ["inputs", "histories", "configurations"], "every input, every process and every call history",
  "A test that compares two runs in one process does not vary addresses, hash seed, heap contents or earlier calls.",
  [FE + "util.hpp", FE + "embedding_problem.hpp", FE + "pathfinder.hpp", "include/fastrng.hpp",
   BC + "util.hpp", BC + "topo_cache.hpp", "minorminer/_minorminer.pyx", "minorminer/busclique.pyx", "minorminer/subgraph.pyx",
   "minorminer/utils/parallel_embeddings.py"],
  [("optional_parameters::rng", FE + "util.hpp"), ("random_seed handling", "minorminer/_minorminer.pyx"),
   ("topo_cache::reset / next", BC + "topo_cache.hpp"), ("_read_graph", "minorminer/subgraph.pyx")],
  check=("dataflow over entropy sources, clock use, definite assignment, hidden state, addresses and set order",
         "All functions of the C++ headers in every instantiation, and every Python/Cython function that takes a seed with what it "
         "calls. Third-party libraries are assumed deterministic; results from the on-disk cache are not covered."))

P("C05", "Fixed chains come back untouched",
  "A variable with a fixed chain has exactly that chain in every embedding the search returns: the search never "
  "adds to, removes from, re-roots, tears out or re-searches the chain of a fixed variable, and never places "
  "another variable's chain on the qubits of a fixed chain.",
  ["inputs", "histories"], "every graph pair, every set of fixed chains, every point of the search",
  "Tests fix chains in a few small problems; one unguarded mutation on one path is only seen if the search takes it.",
  [FE + "embedding.hpp", FE + "embedding_problem.hpp", FE + "pathfinder.hpp", FE + "find_embedding.hpp"],
  [("fixed_handler_hival, num_vars()/num_fixed()", FE + "embedding_problem.hpp")],
  check=("interprocedural demand analysis (call graph + path facts) of every chain-changing and qubit-choosing site",
         "Every site that changes a chain or chooses a qubit is traced back to where its variable or qubit comes from; "
         "the renumbering and reservation premises are checked at their definitions."))

P("C06", "Chain and qubit-occupancy bookkeeping always agree",
  "After every operation on an embedding under construction, the recorded occupancy of each qubit equals the number "
  "of chains that contain it, each chain's link counts equal the number of its own qubits and neighbour links that "
  "hang off each qubit, and links between two chains are recorded on both sides or on neither.",
  ["histories", "inputs"], "every sequence of chain operations",
  "A missed count on one path only shows as a wrong overlap decision much later; tests compare a few end states.",
  [FE + "chain.hpp", FE + "embedding.hpp"],
  [("chain::add_leaf/set_root/trim_*/set_link/drop_link/steal/clear", FE + "chain.hpp")],
  check=("ledger dataflow (value numbering and counting) over every control-flow path of the chain and embedding operations",
         "Every path through every chain/embedding method, all template instantiations, loops summarised per round or per element. "
         "Decides occupancy, reference counts, link symmetry and freeze/restore pairing; assumes distinct values name distinct "
         "qubits unless the path compared them and that documented preconditions on presence hold."),
  state=[("chain::data", "qubit -> (parent, refcount)", FE + "chain.hpp"),
         ("qubit_weights", "number of chains using each qubit", FE + "embedding.hpp")])

P("C07", "Temporary search state is restored on every exit",
  "State the search changes for the duration of a step (the overlap bound, a chain frozen while a replacement is "
  "sought) is back at its previous value when the step ends, on every way out of the step; after a failed pass the "
  "search falls back to a complete embedding; and no search reads scalar state left by an earlier call on the object.",
  ["histories", "fault_sequences"], "every path through every search step, including early and exceptional exits",
  "A leaked bound only affects later steps and only on the path that leaks it.",
  [FE + "pathfinder.hpp", FE + "embedding.hpp", FE + "chain.hpp"],
  [("weight_bound save/restore", FE + "pathfinder.hpp"), ("freeze_out/thaw_back", FE + "embedding.hpp")],
  check=("path-sensitive typestate and save/restore dataflow over the search steps' control-flow graphs",
         "Every path (constants and zero/non-zero facts prune branches) through every function that sets the overlap "
         "bound, freezes a chain or drives passes, in all template instantiations. Per-qubit scratch arrays are not covered."))

P("C08", "Timeout and interrupt are honoured throughout a search",
  "Every pass of the search over the variables tests for timeout and for keyboard interrupt, so that no "
  "search runs on by more than one pass; a stop during improvement keeps the best embedding found so far, "
  "and the deadline of a call is its own start time plus its own timeout.",
  ["schedules", "inputs", "histories"], "every moment at which a deadline can pass or a signal can arrive",
  "Tests cannot place an interrupt at every point; they check one timeout at most.",
  [FE + "pathfinder.hpp", FE + "util.hpp", "minorminer/src/pyutil.hpp"],
  [("check_stops", FE + "pathfinder.hpp")],
  check=("path-sensitive typestate of stop checks over the search's control-flow graphs",
         "Every path (constants and zero/non-zero facts prune branches) through the stop test, every pass and every "
         "driver, in all template instantiations. How long one pass takes is not bounded."))

P("C09", "find_embedding's return contract",
  "find_embedding returns a dict from source nodes to lists of target nodes, empty when no embedding was found; with "
  "return_overlap it returns a pair of that mapping, populated even when chains overlap, and a success flag that is 1 "
  "only for an overlap-free embedding. This holds for every input, including empty and edgeless source graphs.",
  ["inputs", "configurations"], "every source, target and option combination",
  "Tests check the shape of the result for ordinary inputs only.",
  ["minorminer/_minorminer.pyx", FE + "find_embedding.hpp", FE + "pathfinder.hpp"],
  [("find_embedding", "minorminer/_minorminer.pyx"), ("findEmbedding", FE + "find_embedding.hpp")], check=("provenance dataflow over the Python returns, path-sensitive typestate of the success flag in the C++ core",
         "Every return of both Python entry points with its guards; every function that keeps a best embedding for all four "
         "(candidate status, flag) combinations; the occupancy test; the read-out of chains. Occupancy counts are C06's."))

P("C10", "Labels are translated consistently in both directions",
  "Node labels of any hashable type are translated to internal indices and back without mixing source with target "
  "labels, variables with qubits, or external with internal numbering, for the graph, the chains given as options, "
  "variable orders and the result.",
  ["inputs"], "every labelling, every mix of fixed, initial and restricted chains, disconnected target graphs",
  "Tests mostly use integer labels 0..n-1, for which the translations are the identity.",
  ["minorminer/_minorminer.pyx", FE + "find_embedding.hpp", FE + "graph.hpp", FE + "embedding_problem.hpp"],
  [("labeldict", "minorminer/_minorminer_h.pxi"), ("screw_vars/unscrew_vars", FE + "find_embedding.hpp"),
   ("components::into_component/from_component", FE + "graph.hpp")], 
  check=("index-space inference over the C++ translation layer; provenance dataflow over the Python label handling",
         "Every look-up, insertion and read-back of labels and indices between the Python API and the search core; hash and "
         "equality semantics of the labels are assumed."))
P("C12", "A cached clique table is only used for the graph it was built for",
  "Two lookups in the busclique cache share an entry only if everything the results are computed from is the same: the "
  "topology, its dimensions, offsets and tile, the exact sets of available nodes and couplers, the trivial clique, the random "
  "seed, the mask bound, the kind of result and the cache format version. What a lookup hands out is the entry under exactly "
  "that identity or a fresh result of the same kind of search on the same graph, and writing one entry keeps the others in its file.",
  ["inputs", "histories"], "every pair of target graphs, every order of calls sharing a cache directory",
  "Tests use a handful of graphs; a stale hit needs two graphs that collide.",
  ["minorminer/busclique.pyx", BC + "util.hpp", BC + "topo_cache.hpp"],
  [("_fetch_cache / _serialize / __cache_version", "minorminer/busclique.pyx"), ("topo_cache::serialize", BC + "topo_cache.hpp"),
   ("_serial_helper / _serialize", BC + "util.hpp")],
  check=("information-flow analysis of the cache key against what the cached results are computed from",
         "The Python lookup and constructors, the serialization instantiation by instantiation, the native constructors of the "
         "three topologies. Injectivity of the seed amplifier is assumed; raising the format version is a release decision."))

P("C13", "The busclique cache files survive concurrent use and interruption",
  "Every access to a busclique cache file (clear_all_caches aside) happens under one lock shared by the threads of a process and "
  "one lock file shared by all processes, both depending only on the kind of cache. A cache file is read and replaced in one "
  "critical section, and only as a whole, by a complete and closed temporary file of the same directory, so neither a crash nor a "
  "concurrent reader sees a partial file. A file that is missing is recomputed or ignored, never an error; only the least recently "
  "used files beyond the limit are removed. write_to_disk alone decides whether a change reaches the disk, and what is written is "
  "the final state; clear_all_caches removes the caches of all versions.",
  ["schedules", "crash_points", "histories"], "every interleaving of threads and processes, every point of interruption, every order of calls",
  "Tests use the cache from one thread of one process and are never interrupted.",
  ["minorminer/busclique.pyx"],
  [("_fetch_cache / copy_on_close_context / clear_all_caches", "minorminer/busclique.pyx"), ("update_clique_cache / merge_clique_cache / insert_clique_embedding", "minorminer/busclique.pyx")],
  check=("lock-set, ordering and effect analysis of every file access reachable from the public functions",
         "All public functions with helpers and context managers inlined. os.replace's atomicity, the lock library and the absence of a "
         "concurrent clear_all_caches are assumed."))

P("C18", "Every internal loop makes progress",
  "Every loop of the native code changes, on every way round, state that its exit condition is computed from; a loop "
  "counter moves towards its bound and cannot step over the value that ends the loop; a graph search adds a vertex to "
  "its work list only under a visited-test that the same round settles; no loop changes the container it is walking. "
  "So no input can make a call spin on a loop that stands still.",
  ["inputs"], "every input and every path round a loop",
  "A loop that fails to advance hangs only on the inputs that reach the path without the update.",
  [FE + "pathfinder.hpp", FE + "chain.hpp", FE + "embedding.hpp", FE + "graph.hpp", FE + "embedding_problem.hpp",
   BC + "cell_cache.hpp", BC + "clique_cache.hpp", BC + "topo_cache.hpp"],
  [("while loops", FE + "pathfinder.hpp, chain.hpp"), ("topo_cache::next", BC + "topo_cache.hpp")],
  check=("loop-progress dataflow over the natural loops of the control-flow graphs",
         "Every path round every loop in all instantiations of the C++ core and busclique headers. A pointer or parent "
         "walk that advances every round is accepted: acyclicity of the linked data is not shown."))

P("C20", "What the caller passes in is left as it was",
  "No public function, constructor or method (item assignment and deletion on an object aside) changes an object the caller passed "
  "in: the source and target graphs, embeddings and chains, layouts, option dictionaries, tiles and size lists are the same after a "
  "call as before it, on every path. placement.intersection, which documents that it modifies S_layout, is the one exception.",
  ["inputs", "histories"], "every public call with every combination of options, every path through it",
  "A call that corrupts its argument still returns the right answer; only the caller's next use of the object goes wrong, and "
  "tests build fresh arguments for every call.",
  ["minorminer/utils/parallel_embeddings.py", "minorminer/layout/placement.py", "minorminer/layout/layout.py", "minorminer/layout/__init__.py",
   "minorminer/utils/diagnostic.py", "minorminer/utils/feasibility.py", "minorminer/_minorminer.pyx", "minorminer/busclique.pyx",
   "minorminer/subgraph.pyx", "minorminer/_extern/rpack/_core.pyx"],
  [("find_multiple_embeddings / _local_graph", "minorminer/utils/parallel_embeddings.py"), ("_parse_layout", "minorminer/layout/placement.py"),
   ("pack", "minorminer/_extern/rpack/__init__.py")],
  check=("ownership dataflow: every in-place change on every path traced to the object's origin",
         "All public functions, constructors and methods of the Python and Cython sources with their private helpers; a user-supplied "
         "embedder, layout or placement function is assumed not to modify its own arguments."))

P("C23", "Multiple and sublattice embeddings are disjoint, bounded and follow options",
  "find_multiple_embeddings and find_sublattice_embeddings return embeddings that use no target node twice: whatever a round keeps is "
  "removed, chains and all, from the graph the next round searches. Every returned mapping was found by the embedder in what was left of "
  "the target, or was checked against it. There are never more than max_num_emb, and no search starts after the time given. Every "
  "option (embedder, its arguments, one_to_iterable, seed, shuffling, filter, remaining time) reaches every nested search; with "
  "shuffle_all_graphs every search gets the shuffled source and target, with the same nodes and edges, and the order depends on seed only.",
  ["inputs", "configurations"], "every graph, embedder, combination of options, and number of rounds",
  "Tests pin a few graphs and options; overlap or a lost option shows only for particular tilings, chain lengths and embedders.",
  ["minorminer/utils/parallel_embeddings.py"],
  [("find_multiple_embeddings", "minorminer/utils/parallel_embeddings.py"), ("find_sublattice_embeddings", "minorminer/utils/parallel_embeddings.py")],
  check=("path enumeration over provenance terms of the search loops",
         "Every path through two rounds of both search loops, for both kinds of embedding and both shuffle settings; the embedder itself and "
         "dwave.graphs' sublattice mappings are assumed to do what they say."))

P("C15", "busclique answers in the labels of the caller's graph, on the nodes named",
  "For every supported graph (chimera, pegasus, zephyr; any dimensions; int, coordinate or nice labels) every embedding busclique returns "
  "has chains made of labels of that graph, translated exactly once, and every embedding given to it (insert, update, merge, drawing) is "
  "translated to its internal labels exactly once. find_clique_embedding and find_biclique_embedding map exactly the nodes named (or "
  "range(n), and range(n, n+m) for the second side) to one chain each, from a stored clique or biclique of sufficient size, with both "
  "sides kept apart in either order and for an empty side. Entries of the cache are found under their real size and chain length.",
  ["inputs", "configurations"], "every graph family, dimension, labelling, request and cache content",
  "Tests use a few graphs with default parameters; a wrong converter, offset or order shows only for particular labels, shapes and sizes.",
  ["minorminer/busclique.pyx"],
  [("busgraph_cache", "minorminer/busclique.pyx"), ("_zephyr_busgraph / _pegasus_busgraph / _chimera_busgraph", "minorminer/busclique.pyx")],
  check=("label-provenance typing and path enumeration over the busclique module",
         "Every return, insertion, constructor branch and path to an answer; the coordinate converters of dwave.graphs are assumed right."))

P("C19", "Embedding diagnostics report every defect and nothing else",
  "diagnose_embedding yields MissingChainError for exactly the source nodes without a non-empty chain; InvalidNodeError for exactly the chain "
  "nodes that are not in the target; DisconnectedChainError for exactly the chains that lie in the target and are not connected in it; "
  "ChainOverlapError for every target node in several chains, pairing the first chain with each other one; MissingEdgeError for exactly the "
  "source edges (loops excepted) whose ends both have chains inside the target that no target edge joins. It accepts graphs and edge lists "
  "and never stops early. is_valid_embedding is False exactly when something is yielded; verify_embedding raises the first error whose class "
  "is not in ignore_errors, with its arguments in their documented roles, and returns True otherwise.",
  ["inputs"], "every embedding, source and target (undirected graphs or edge lists)",
  "Tests check single defects in small embeddings; combinations, later chains and later errors are not sampled.",
  ["minorminer/utils/diagnostic.py", "minorminer/utils/exceptions.py"],
  [("diagnose_embedding", "minorminer/utils/diagnostic.py"), ("EmbeddingError", "minorminer/utils/exceptions.py")],
  check=("path enumeration of the diagnosis generator against the definition of every error",
         "Every path through the diagnosis, for graphs and edge lists; networkx is assumed right."))

P("C21", "Layout-aware embedding passes on exactly what it computed and was given",
  "layout.find_embedding lays S out by the source entry and T by the target entry of layout (a Layout is used as it is, a mapping or function "
  "makes one with the dim, center and scale given; only a target for which nothing was given gets the D-Wave default), makes one placement "
  "from exactly these two layouts with the placement keywords, and calls minorminer.find_embedding on the caller's S and T with that placement as "
  "initial_chains or, one list per vertex, as suspend_chains, with every other keyword unchanged. The time used up is taken off "
  "timeout, TimeoutError is raised only when nothing is left, and the embedder's answer is returned as is, with the layouts when asked for.",
  ["inputs", "configurations"], "every graph, pair of layouts, placement, hint type and combination of keywords",
  "Tests check that some embedding comes out; a hint, keyword or layout that is dropped or mixed up leaves a valid embedding of lower quality.",
  ["minorminer/layout/__init__.py"],
  [("find_embedding", "minorminer/layout/__init__.py"), ("_parse_layout_parameter", "minorminer/layout/__init__.py"), ("_parse_kwargs", "minorminer/layout/__init__.py")],
  check=("path enumeration over provenance terms",
         "Every path through find_embedding with its helpers inlined; Layout and Placement are judged by C22 and C30."))

P("C22", "A Layout's mapping, array, dim, center and scale describe the same points",
  "After any sequence of constructor, property and item assignments a Layout's mapping, its layout_array (rows in the sorted order of the "
  "vertices), dim, center and scale describe the same points, without changing the caller's mapping. Setting center translates, setting scale "
  "stretches about the center, setting dim appends zero coordinates and refuses a smaller dimension. The layout functions give every vertex of G "
  "its own point in the dimension, center and scale asked for: p_norm minimises the distances of the vertices its rows stand for, D-Wave graphs are "
  "mapped onto the square of the scale around the center, packed components keep all vertices and lie in their own rectangles.",
  ["inputs", "histories"], "every graph, vertex order and labelling, sequence of changes, dim, center and scale",
  "Tests set one property at a time on sorted integer graphs; a stale field or a wrong row order shows only for other orders and sequences.",
  ["minorminer/layout/layout.py"],
  [("Layout", "minorminer/layout/layout.py"), ("p_norm", "minorminer/layout/layout.py"), ("dnx_layout / graph_layout", "minorminer/layout/layout.py"),
   ("_pack_components", "minorminer/layout/layout.py")],
  check=("path enumeration with row-order typing and symbolic identities",
         "Every path through Layout's methods and the layout functions; numpy, networkx and scipy are taken at their word, the optimiser's result is not judged."))

P("C30", "A Placement maps every source vertex by the rule asked for, in one frame",
  "Placement works on copies of the two Layouts, refuses layouts of different dimensions, scales S's copy to scale_ratio times T's scale, or "
  "down to T's scale when it is bigger, and then holds the placement of closest, of the function given (called with both copies and all keywords) or the "
  "mapping given. closest maps every vertex of S to one of its num_neighbors nearest connected subsets of T with subset_size[0] to "
  "subset_size[1] vertices, preferring those overlapping less with what was taken before; a subset lies at the mean of its vertices. intersection "
  "maps every vertex of S to the qubits meeting at its nearest grid point, for chimera, pegasus and zephyr graphs of any size and labelling.",
  ["inputs", "configurations"], "every pair of layouts, placement rule, subset size, number of neighbours, D-Wave family, size and labelling",
  "Tests check that some placement of a few small graphs comes out; a wrong subset, offset or scale only lowers the quality of what is found.",
  ["minorminer/layout/placement.py"],
  [("Placement", "minorminer/layout/placement.py"), ("closest / _minimize_overlap", "minorminer/layout/placement.py"),
   ("intersection / _intersection_binning", "minorminer/layout/placement.py"), ("_get_connected_subgraphs", "minorminer/layout/placement.py")],
  check=("path enumeration over provenance terms with symbolic identities",
         "Every path through Placement, closest, intersection and their helpers; scipy's KDTree and the converters of dwave.graphs are assumed right."))

P("C24", "A feasibility filter never rejects what could be embedded",
  "embedding_feasibility_filter(S, T, one_to_one) is False only when T has fewer nodes or edges than S; or, for a subgraph embedding, when "
  "T's largest degrees do not dominate S's; or, for a minor embedding, when T is a path or cycle besides, or has too few nodes left to build "
  "the chains that S's high degrees need at best. lattice_size_lower_bound never exceeds the smallest size that admits an embedding of the "
  "kind asked for, and is None only if no size does: it starts no higher than the smallest lattice with enough nodes, leaves no size out, "
  "builds square lattices of the tile asked for, and rules a topology out by degree or two-colourability for subgraph embeddings only.",
  ["inputs", "configurations"], "every source, target, topology, tile and kind of embedding",
  "A wrong rejection shows only for sources at the very limit of the target; the tests use a few graphs well inside or well outside.",
  ["minorminer/utils/feasibility.py"],
  [("embedding_feasibility_filter", "minorminer/utils/feasibility.py"), ("lattice_size_lower_bound", "minorminer/utils/feasibility.py")],
  check=("path enumeration over provenance terms, with the grounds of each rejection classified",
         "Every path through both functions (two rounds of loops); that the degree and node counts of the lattices are those of dwave.graphs, "
         "and that the degree argument for chains is sound, is argued in DESIGN.md, not derived."))

P("C27", "The busclique tables keep the best embedding for every size and answer with it",
  "A merge of clique tables (merge_clique_cache, insert_clique_embedding, mine_clique_embeddings) goes over every size and chain length of both "
  "tables, drops nothing only one of them has, and for a size both have keeps the embedding of higher quality (by default the shorter longest "
  "chain among the chains used), for a length both have the larger one, and on a tie the one already there. A direct insertion and "
  "update_clique_cache replace. Tables made from a search have for every size up to the largest the embedding with the shortest longest "
  "chain. find_clique_embedding, largest_clique, largest_clique_by_chainlength, find_biclique_embedding and largest_balanced_biclique answer "
  "with the best entry that satisfies the request, entries exactly at the limit and the first entry of a table included; get_clique_cache "
  "leaves no size out; the quality function a caller passes decides.",
  ["inputs", "histories"], "every history of insertions, merges and updates, every size, chain length and quality function asked for",
  "Tests insert and merge once or twice and look at sizes well inside the table; ties, entries at a limit and sizes only one table has need particular histories.",
  ["minorminer/busclique.pyx"],
  [("merge_clique_cache", "minorminer/busclique.pyx"), ("_make_clique_cache", "minorminer/busclique.pyx"), ("find_biclique_embedding", "minorminer/busclique.pyx")],
  check=("provenance terms of the table operations, with each comparison's direction and each range's bounds judged",
         "Every comparison between two embeddings, every range over sizes or lengths and every choice of an answer that is written in a form "
         "the rules recognise; that the chains of a stored embedding are sorted by length is required at insertion and assumed elsewhere. "
         "A decision written in an unrecognised form is not judged."))

P("N01", "Every returned embedding is a valid minor",
  "Every non-empty embedding returned as successful has connected, pairwise disjoint chains with a coupler for "
  "every source edge.",
  ["inputs"], "every source and target graph",
  "Tests sample graphs.",
  [FE + "pathfinder.hpp", FE + "chain.hpp"], [("find_chain / construct_chain", FE + "pathfinder.hpp")],
  na="Connectivity and edge coverage are properties of run-time qubit values: they depend on the content of parent "
     "arrays and heap orders that no static argument in reach bounds. The structural parts are claimed separately "
     "(C05, C06, C09, C10).")
P("N02", "busclique returns the largest native clique",
  "find_clique_embedding finds a clique of the requested size whenever a native one exists, with minimum chain length.",
  ["inputs"], "every defect pattern", "Tests check some sizes on generated defects.",
  [BC + "clique_cache.hpp", BC + "find_clique.hpp"], [("clique_cache", BC + "clique_cache.hpp")],
  na="Optimality of a dynamic program over run-time coupler masks; it quantifies over numerical table values.")
P("N03", "Layouts minimise their metric", "p_norm returns a layout at a local minimum of its objective.",
  ["inputs"], "every graph", "Numeric.", ["minorminer/layout/layout.py"], [("p_norm", "minorminer/layout/layout.py")],
  na="Numerical optimisation result.")
