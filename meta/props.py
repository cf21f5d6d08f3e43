"""Single source of properties.jsonl and MANIFEST.json (see gen.py)."""
PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, level="proof"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, level=level))


def N(id, title, statement, over, quant, why, files, mech, na):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, na=na))


TB = (" Trusts: clang's front end, the analyser under tool/ and lib/, and the hand-written effect table of external (libsc/MPI/libc) "
      "functions. Both the debug and the release configuration are analysed. ")

P("C02", "Library communicates only on the caller's communicator and owns what it frees",
  "Every message and collective concerning an object travels on the communicator the user supplied for it, or on one the library itself "
  "derived from that, never on a predefined world or self communicator. A forest frees its communicator exactly when it owns it: "
  "duplicating a communicator makes the forest its owner, assigning or copying never does. The cached rank and size are refreshed "
  "whenever the communicator is replaced.",
  ["programs", "configurations", "histories"], "all call sequences, all communicators, all library call sites",
  "Tests run everything on the world communicator of two processes, so a call on the wrong communicator behaves identically there.",
  ["src/p4est_communication.c", "src/p6est_communication.c", "src/p4est.c", "src/p4est_build.c", "src/p4est_ghost.c", "src/p4est_lnodes.c",
   "src/p4est_connectivity.c", "src/p4est_wrap.c"],
  [("p4est_comm_parallel_env_assign/duplicate/release/replace", "src/p4est_communication.c"), ("mpicomm_owned", "src/p4est.h")],
  "interprocedural provenance and ownership analysis on LLVM IR",
  "Every communicator operand in the library is traced to its origin; frees are control dependent on the ownership flag; stores and "
  "whole-struct copies are paired with the flag." + TB)

P("C04", "No hidden process-wide mutable state",
  "Apart from the one-time registration of the package, the library keeps no mutable state outside the objects the caller holds: no "
  "operation writes a global or function-static variable or changes process-wide libc, libsc or MPI settings. Hence operations on "
  "distinct forests cannot influence each other, and an operation's result depends only on its arguments.",
  ["histories", "programs"], "all sequences and interleavings of library calls on any number of objects",
  "Tests run operations in one order on few objects; interference through hidden state needs specific interleavings or histories.",
  ["src"], [("only p4est_init writes package globals", "src/p4est_base.c")],
  "who-may-write analysis over all globals (interprocedural mod sets)",
  "All stores and external write effects of every library function are resolved to access paths; none may be rooted at a global." + TB)

P("C08", "Quadrant outputs may alias the inputs they are documented to alias",
  "Where the documentation allows an output quadrant to be the same object as an input (parent, ancestor, neighbor, corner node, nearest "
  "common ancestor, children and the like), calling the function in place gives the same result as calling it with distinct objects. "
  "The same holds wherever the library itself passes one quadrant as both input and output.",
  ["inputs"], "all quadrants and all admissible aliasing of arguments",
  "Aliasing calls are a tiny part of the argument space; a read placed after a write is visible only for aliased arguments with particular coordinates.",
  ["src/p4est_bits.c", "src/p4est_bits.h", "src/p8est_bits.h"],
  [("inputs are read before the output is written", "src/p4est_bits.c")],
  "byte-precise store-before-load path analysis over parameter pairs",
  "For each pair, all CFG paths and callees: no byte is stored through the output and later loaded through the input." + TB)

P("C09", "Quadrant arithmetic defines exactly position and level of its outputs",
  "Quadrant construction functions (parent, child, sibling, ancestor, neighbors, descendants, successor, predecessor, from linear index, "
  "...) set every coordinate and the level of each output on every returning path, even if the output was uninitialised before. They "
  "never touch its user data, piggyback or padding bytes.",
  ["inputs"], "all input quadrants, levels and directions; all prior contents of the output object",
  "Tests reuse initialised quadrants, so a field left unset on a rare branch or user data clobbered on another goes unnoticed.",
  ["src/p4est_bits.c", "src/p8est_bits.c", "src/p4est_bits.h", "src/p8est_bits.h"],
  [("assignments of x, y, z, level", "src/p4est_bits.c")],
  "mod (frame) and definite-assignment dataflow with interprocedural summaries",
  "May-write set of each output parameter is within the Morton fields and the must-write set covers them; documented partial outputs are tabled." + TB)

P("C18", "Data handed to the library for reading is never modified",
  "Functions that only query (searches, iteration set-up, checks, conversions, ghost and node construction, saving, output, comparison, "
  "...) leave the forest, connectivity, ghost layer, mesh, arrays and quadrants they are given unchanged, directly and through anything "
  "they call. In particular the forest passed for reading keeps all quadrants, counts, partition tables and revision.",
  ["inputs", "histories", "programs"], "all inputs and all execution paths of every read-only parameter",
  "A test would have to deep-compare every input after every call on every path; existing tests compare almost none.",
  ["src"], [("const qualification and read-only use", "src/*.h")],
  "interprocedural field-sensitive mod analysis (frame conditions)",
  "Every pointer-to-const parameter and every parameter of a table of read-only inputs has an empty transitive write set; so has what the library's own iteration call-backs are shown." + TB)

P("C22", "Per-process operations never communicate",
  "Operations documented as local (quadrant arithmetic, searches, iteration, refinement and coarsening bookkeeping, connectivity "
  "queries, mesh and ghost queries, ...) can be called by any single process at any time: no communication primitive is reachable from "
  "them, so calling them on a subset of processes cannot deadlock.",
  ["schedules", "programs"], "all paths of all tabled functions, any subset of processes calling",
  "Tests call every function on all processes together, where a hidden collective completes normally.",
  ["src"], [("absence of MPI calls", "src/*.c")],
  "call-graph reachability (effect analysis)",
  "No MPI or libsc communication primitive is reachable from any tabled function." + TB)

P("C23", "Results do not depend on time, randomness, environment or addresses",
  "Given the same inputs and process layout, every operation computes the same result in every run: no clock, random source, process "
  "identity or environment variable is consulted, timer readings reach statistics only, and no decision depends on the numeric order "
  "of memory addresses.",
  ["histories", "configurations", "programs"], "all runs, all environments, all memory layouts",
  "A test observes one environment and address layout per run; dependence on them shows only between runs.",
  ["src"], [("timers only feed statistics", "src/p4est_algorithms.c")],
  "source/sink dataflow (taint) and call-effect lint",
  "All calls are checked against a deny list; timer values and pointer-to-integer conversions are traced to their uses." + TB)

P("C03", "Debug and release builds compute the same",
  "Enabling or disabling the debug configuration changes no result: assertions are free of side effects, and the code compiled only in "
  "debug mode (validity checks, extra statistics, poisoning of buffers, extra communication) neither changes the objects handed to the "
  "library nor the values later read by code common to both, nor what is returned to the caller. Release code never uses a value that "
  "only debug code computes.",
  ["configurations", "programs"], "all functions of the library, all inputs, both configurations",
  "Tests run in one configuration only; an assertion with a side effect passes there and changes behaviour in the other build.",
  ["src"], [("P4EST_ASSERT / P4EST_ENABLE_DEBUG", "src/p4est_base.h")],
  "effect differencing of the two preprocessor configurations on LLVM IR",
  "All stores and effectful calls of each function are compared between the two configurations; those present in one only must be dead, "
  "local or in a justified table (poison writes)." + TB)

P("C13", "Failures of input, output and communication are never ignored",
  "Whenever a file operation, stream operation or message passing call that the library makes reports a failure, the library notices: the result "
  "is tested on every path and the failure is either reported to the caller or ends the program. No short read, failed write, failed close or "
  "failed message is silently treated as a success, and errors reported by the library's own reading and writing functions are not dropped by "
  "their library callers.",
  ["inputs", "histories", "programs"], "all calls to fallible input, output and MPI functions, all failure points",
  "Tests run on a healthy file system and network, so the failing branch, or its absence, is never exercised.",
  ["src/p4est.c", "src/p4est_io.c", "src/p4est_connectivity.c", "src/p4est_vtk.c", "src/p4est_ghost.c", "src/p4est_lnodes.c"],
  [("SC_CHECK_MPI, SC_CHECK_ABORT on results", "src/*.c")],
  "unchecked-result dataflow lint (value must reach an effective test)",
  "Every call of a fallible function: its result must flow to a branch one side of which aborts, returns an error or logs, or be returned; "
  "assuming that a call failed, no path may return the value that means success." + TB)

P("C15", "Connectivity operations cover every field completely",
  "Building, copying, broadcasting, sharing, comparing, serialising, deserialising and destroying a connectivity treat every one of its "
  "fields with its full extent: the number of elements processed equals the number allocated for that field, under the same "
  "presence conditions, for all counts of trees, vertices, edges and corners, with or without vertices and tree attributes. Equality "
  "compares every field, and no field is lost by a copy or broadcast, or left behind when the trees are renumbered.",
  ["inputs", "configurations"], "all connectivities of any size, in two and three dimensions",
  "Tests use a few built-in connectivities; a field or extent that is dropped shows only for connectivities with attributes, hanging corners or unusual counts.",
  ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_connectivity.h", "src/p8est_connectivity.h"],
  [("p4est_connectivity_new/bcast/share/is_equal/sink/source/destroy", "src/p4est_connectivity.c")],
  "symbolic-extent coverage analysis over sibling operations",
  "The allocation extent of every array is a polynomial in the counts; every sibling operation must process the same polynomial under the same guard." + TB)

P("C14", "Files are read back in exactly the layout in which they were written",
  "Every saved connectivity and every saved forest of either dimension is read back by the matching loader with the same sequence of sections, the same number "
  "of bytes per section, the same header words, padding and file offsets, for every number of trees, quadrants, processes and every payload size. "
  "Magic numbers and record widths that are written are verified on reading, and a mismatch is rejected.",
  ["inputs", "configurations"], "all connectivities and forests, all payload sizes, all writer and reader process counts",
  "Round trips in tests use a handful of forests; an offset or a section length that is wrong for some combination of sizes only shows for that combination.",
  ["src/p4est_connectivity.c", "src/p4est.c", "src/p4est_communication.c", "src/p4est_io.c"],
  [("p4est_connectivity_sink/source", "src/p4est_connectivity.c"), ("p4est_save_ext/p4est_source_ext", "src/p4est.c")],
  "symbolic layout extraction: byte counts and offsets as polynomials, compared between writer and reader",
  "Each fwrite/fread/seek/MPI file access is expressed as a polynomial in the recorded quantities; writer and reader must agree as polynomials, hence for all sizes." + TB)

P("C16", "Topology tables describe the square and the cube",
  "Every published lookup table about faces, edges, corners and their mutual incidence, neighbour offsets and face permutations states exactly what follows from "
  "the documented numbering of a square or cube. Inverse and derived tables agree with the tables they belong to.",
  ["inputs"], "all entries of all published tables, that is all faces, edges, corners, orientations and pairs of them",
  "Most entries are only reached for special combinations of faces and orientations, which the sample connectivities do not contain.",
  ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_bits.c"],
  [("p8est_face_permutations and others", "src/p8est_connectivity.c")],
  "exhaustive evaluation of constant initialisers against tables derived from the numbering convention",
  "Every entry of 27 tables is compared with a value derived independently from geometry." + TB)

P("C17", "Predefined connectivities are consistent and complete",
  "In every predefined connectivity that is given by constant tables, each face connection leads back to where it came from with the same orientation, faces that "
  "share their vertices are joined vertex to vertex, and no pair of them is left open. Edge and corner groups are listed by exactly their members, "
  "with correct relative direction, and contain everything that meets at that edge or corner beyond direct face neighbours.",
  ["inputs"], "all faces, edges and corners of all predefined connectivities with constant tables",
  "The validity function that tests call does not compare with the vertices and cannot see missing groups; only some predefined connectivities are tested at all.",
  ["src/p4est_connectivity.c", "src/p8est_connectivity.c"],
  [("p4est_connectivity_new_*", "src/p4est_connectivity.c"), ("p8est_connectivity_new_*", "src/p8est_connectivity.c")],
  "evaluation of constant tables with union-find over glued faces, edges and corners",
  "The argument images of the copying constructor are reconstructed from the IR; computed connectivities (two trees, brick, torus, disk) are not decided." + TB)

P("C24", "Every public header works alone, in C and C++, and all it declares exists",
  "Each installed header compiles as the only include of a C or C++ program, may be included twice, and the 2D and 3D headers may be combined. Everything declared "
  "as a function or variable is defined by the library with C linkage and the declared name.",
  ["programs", "configurations"], "all user programs with respect to includes and linkage of every declared symbol",
  "Tests are C programs that include a few headers in a fixed order and call a part of the interface.",
  ["src"], [("public headers", "src/*.h")],
  "compile-fail witnesses per header and language, with symbol resolution against the library's object code",
  "Compiler and symbol tables decide. Seven declared functions without definition are known findings." + TB)

P("C25", "The library builds completely in every configuration it offers",
  "Under each supported combination of debugging, MPI, MPI I/O, threads, shared memory windows and zlib availability, every source compiles without implicit "
  "declarations, type mismatches or missing returns, and no library symbol is left undefined.",
  ["configurations"], "the configuration matrix in debug and release mode",
  "The test suite is built in one configuration only.",
  ["src", "CMakeLists.txt"], [("P4EST_ENABLE_* switches", "src/p4est_base.h")],
  "compile-fail witnesses over the configuration matrix with symbol resolution",
  "Eight configurations times debug/release; the deprecated-file configuration cannot be compiled with the installed libsc and is not covered." + TB)

P("C12", "Everything acquired is released exactly by its owner",
  "On every path through a library function that returns - error paths, empty processes and early returns included - the memory, containers, files, communicators, windows and library objects it "
  "acquired are released, returned, or stored in an object that outlives the call. Every component an object owns is released when the object is destroyed, and a copy of an object never shares a component with its original that both would release.",
  ["inputs", "histories"], "all paths that return, all combinations of options, in debug and release mode",
  "Leaks on error paths, on empty processes and in rarely used option combinations are not executed by the tests.",
  ["src"], [("P4EST_ALLOC / P4EST_FREE", "src/p4est_base.h"), ("p4est_destroy", "src/p4est.c"), ("p4est_ghost_destroy", "src/p4est_ghost.c"), ("p4est_mesh_destroy", "src/p4est_mesh.c"),
  ("p4est_connectivity_destroy", "src/p4est_connectivity.c")],
  "interprocedural ownership analysis with path exploration on LLVM IR",
  "Paths are explored with correlated branches; loops over the elements of a container that releases them count as releasing all elements." + TB)

P("C26", "Nothing released is used again",
  "Memory, containers, files and library objects are not read, written, passed on or released a second time after their release, on any path of any function. "
  "No library call returns with an object that still refers to something the call has released.",
  ["inputs", "histories"], "all paths and all call sequences, in debug and release mode",
  "Use after release on error or rarely taken paths, and dangling references that only the next call in a history would follow, do not show up in the tests.",
  ["src"], [("P4EST_FREE", "src/p4est_base.h"), ("p4est_wrap_complete", "src/p4est_wrap.c"), ("p4est_reset_data", "src/p4est.c"), ("p4est_transfer_end", "src/p4est_communication.c")],
  "use-after-release and dangling-field analysis with path exploration on LLVM IR",
  "Covers releases certain at the call; releases through aliases in containers are followed only through the same variable." + TB)

P("C27", "Arrays are used within the extent they were given",
  "No array is indexed, copied, filled, sent, received or written to a file beyond the number of elements it was declared with or allocated for, as far as the extent and the index follow from "
  "counts, loop bounds, branch conditions and constant tables. The arrays of public structures are allocated with their documented extents.",
  ["inputs"], "all counts of trees, processes, leaves and nodes, in debug and release mode",
  "A heap overflow by one element lands in padding and goes unnoticed at most sizes; the extents are symbolic in numbers the tests fix.",
  ["src"], [("P4EST_ALLOC", "src/p4est_base.h"), ("p4est_comm_count_pertree", "src/p4est_communication.c"), ("p6est_partition_correct", "src/p6est.c"), ("p4est_connectivity_new", "src/p4est_connectivity.c")],
  "symbolic extent analysis (polynomial bounds, loop counters, interprocedural requirements) on LLVM IR",
  "Reports what certainly leaves its extent; about one access in four depends on further data (contents of arrays, counters that advance conditionally) and is counted as undecided in the evidence." + TB, "other")

P("C28", "The user data of a leaf lives as long as the leaf",
  "Call-backs never see a leaf or layer whose user data has been given back, and see new leaves only after their data was allocated and initialised. "
  "When leaves or layers are replaced, the data of the outgoing ones is given back exactly once, after the replacement call-back has returned, with or without a call-back. "
  "The data of a new leaf is never overwritten or lost, and none is taken or given back where the forest's data size is zero.",
  ["inputs", "histories"], "all meshes and all combinations of call-backs in refinement, coarsening, balance and partition, in debug and release mode",
  "A pool returns the same memory at once, so data given back too early usually still reads well; lost data only shows as growth of the pool.",
  ["src/p4est.c", "src/p4est_algorithms.c", "src/p6est.c", "src/p4est_search_build.c"],
  [("p4est_quadrant_init_data", "src/p4est_algorithms.c"), ("p4est_quadrant_free_data", "src/p4est_algorithms.c"), ("p4est_refine_ext", "src/p4est.c"), ("p4est_coarsen_ext", "src/p4est.c"),
   ("p4est_balance_ext", "src/p4est.c"), ("p6est_coarsen_columns_ext", "src/p6est.c")],
  "typestate of leaf data with path exploration on LLVM IR",
  "Leaves are followed through variables, arrays of pointers and copies within one function and its internal helpers; the single leaves of a family that is handled in a loop are not told apart." + TB)

P("C10", "Every message in flight is completed before its buffer or request is touched",
  "Every non-blocking send and receive is waited for on every path, at the latest by the function that completes a split operation, before its request is released and before its buffer is "
  "released, resized or left behind by a returning function. The number of requests waited for is the number provided for.",
  ["schedules", "inputs"], "all message timings, all communication patterns including empty ones, in debug and release mode",
  "A missing or short wait mostly goes unnoticed, as small messages are delivered eagerly; whether it fails depends on timing and message size.",
  ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_communication.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_nodes.c", "src/p6est.c", "src/p6est_ghost.c", "src/p6est_profile.c"],
  [("p4est_transfer_end", "src/p4est_communication.c"), ("p4est_ghost_exchange_custom_levels_end", "src/p4est_ghost.c"), ("p4est_lnodes_share_all_end", "src/p4est_lnodes.c")],
  "interprocedural request and buffer lifetime analysis with path exploration on LLVM IR",
  "Branches that ask whether there is anything to wait for are taken as decided when the asked variable is tied to the starts of the messages." + TB)

P("C11", "Messages carry the type of their data and every send has its receive",
  "The data type given for a message or collective has the size and kind of the elements of its buffer. Every internal message tag that is sent is also received, with the same type and "
  "unit of size on both sides, in 2D and 3D.",
  ["inputs", "schedules"], "all messages between any number of processes",
  "Messages with a wrong tag or type only occur between processes that share particular boundaries; tests use two processes, and neighbouring memory hides wrong sizes.",
  ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_communication.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_nodes.c", "src/p6est.c", "src/p6est_ghost.c", "src/p6est_lnodes.c",
   "src/p4est_connectivity.c"],
  [("P4EST_MPI_LOCIDX", "src/p4est_base.h"), ("p4est_comm_tag_t", "src/p4est_base.h"), ("MPI call sites", "src")],
  "data type and tag agreement analysis on LLVM IR",
  "Opaque user data is sent as bytes and has no element type to compare with." + TB)

P("C07", "Pointers into arrays do not outlive a change of the array",
  "A pointer to an element of an array, or a view of it, is not used after the array has been extended, resized, reset or destroyed, directly or in a called function, unless it was fetched again.",
  ["inputs"], "all paths, all array sizes and growth patterns, in debug and release mode",
  "Whether an array moves when it grows depends on its size and capacity; with small test meshes it mostly stays in place and stale pointers keep working.",
  ["src"], [("p4est_quadrant_array_index", "src/p4est.h"), ("sc_array_push and sc_array_resize call sites", "src")],
  "stale element pointer analysis with path exploration on LLVM IR",
  "Containers that are elements of other containers are told apart by the expression that finds them; pointers stored outside local variables are not followed." + TB)

P("C19", "The revision counter records exactly the changes of the mesh",
  "A new, copied, built or loaded forest starts with revision zero. Refinement, coarsening, balance and partition increase it by exactly one if and only if the global number "
  "of leaves, or in a partition the distribution, has changed, on all processes alike and on every path. The local number of leaves never changes without the "
  "global count and the partition being recomputed.",
  ["histories", "inputs"], "all sequences of mesh operations, all forests and all partitions, including empty processes",
  "Tests check the counter after a few operations; missing or double increments in rarely taken branches, or decisions based on local numbers, only show in particular histories.",
  ["src/p4est.c", "src/p4est_build.c", "src/p4est_io.c", "src/p4est_points.c", "src/p4est_communication.c"],
  [("p4est_revision", "src/p4est.c"), ("p4est_comm_count_quadrants", "src/p4est_communication.c"), ("p4est_partition_given", "src/p4est_algorithms.c")],
  "path-sensitive typestate analysis (recount, change test, increment) on LLVM IR",
  "Paths are enumerated over the control flow graph with a three-state automaton; the test operands must be the global count loaded before and after the recount." + TB)

P("C20", "Comparison, equality and hash functions agree and are lawful",
  "Every function the library sorts with is a total order: antisymmetric, transitive and zero exactly for objects that agree in all compared fields, without integer "
  "narrowing. Equality of quadrants, nodes and identifiers is true exactly if all compared fields agree and coincides with the order being zero, and objects that are "
  "equal have the same hash; the most significant differing coordinate bit orders quadrants along the space filling curve. "
  "Sorted containers are searched and thinned by an order agreeing with the one they were sorted by, on elements of the size it reads.",
  ["inputs"], "all pairs and triples of objects, including negative and exterior coordinates",
  "Laws of orders quantify over all triples of values; tests sort a few arrays.",
  ["src/p4est_bits.c", "src/p4est_connectivity.c", "src/p4est_geometry.c", "src/p4est_ghost.c", "src/p4est_iterate.c", "src/p4est_plex.c", "src/p6est_ghost.c",
   "src/p8est_tets_hexes.c", "src/p4est_nodes.c"],
  [("p4est_quadrant_compare", "src/p4est_bits.c"), ("sc_array_sort and sc_hash_new call sites", "src")],
  "abstract interpretation over signs of field differences (complete decision tables), bit-parametric case analysis for the curve order",
  "Tables are complete, hence the laws hold for all values; differences of tree, process and local numbers are assumed not to overflow as these are non-negative." + TB)

P("C01", "Collective operations are entered by all processes alike",
  "Whether, how often and in which order the processes of a forest's communicator call a collective operation never depends on data that may differ between them (rank, local "
  "quadrants, received messages, results of call-backs), so no history leaves some processes waiting in a collective that others skip. Roots, counts and types of collectives agree, and "
  "the global number of quadrants and the revision stay equal on all processes.",
  ["inputs", "schedules", "histories"], "all meshes, partitions (including empty processes) and numbers of processes, all call sequences",
  "A collective skipped on some process only hangs for particular distributions, for example an empty process; tests use two processes and few meshes.",
  ["src/p4est.c", "src/p6est.c", "src/p4est_communication.c", "src/p6est_communication.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_nodes.c", "src/p4est_connectivity.c",
   "src/p4est_balance.c", "src/p4est_wrap.c", "src/p4est_vtk.c", "src/p6est_profile.c"],
  [("p4est_comm_count_quadrants", "src/p4est_communication.c"), ("p4est_partition_ext", "src/p4est.c"), ("p6est_profile_sync", "src/p6est_profile.c")],
  "rank-dependence (information flow) analysis with control dependence and sanitising collectives",
  "Flow through values, memory and control of the whole library; structure fields are classified as common or per process by table. Assumes arguments documented as collective are equal." + TB)

P("C05", "What may be absent is looked at before it is used",
  "Every argument that the documentation allows to be NULL (call-backs, optional outputs, point arrays, ghost layers, geometries, parameters) may be NULL in every build, and every "
  "optional component of an object may be absent: user data and its pool when the data size is zero, the inspect structure, vertices, corner and edge information and attributes of a "
  "connectivity, and optional mesh arrays. On no path does the library read, write or call something absent, directly or in a function it passes it to.",
  ["inputs", "configurations"], "all combinations of other arguments and all meshes; debug and release builds",
  "Tests pass nearly every optional argument and use nonzero data sizes, so a missing test for NULL is never met.",
  ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_search.c", "src/p4est_iterate.c", "src/p4est_mesh.c", "src/p4est_ghost.c", "src/p4est_balance.c", "src/p6est.c", "src/p4est_connectivity.c",
   "src/p4est_wrap.c", "src/p4est_vtk.c"],
  [("p4est_quadrant_init_data", "src/p4est_algorithms.c"), ("p4est_search_local", "src/p4est_search.c"), ("p4est_mesh_new_params", "src/p4est_mesh.c")],
  "interprocedural nullness analysis: path exploration with correlated branches under assumed-absent contexts",
  "Contexts come from the documentation (table in lib/optional.py), from tests for NULL in the code, and from the optional components. Dependences between arguments other than those "
  "listed are not modelled; nesting is followed nine calls deep." + TB)

P("C06", "Global numbers are never cut to 32 bits",
  "Counts and indices that run over all processes (quadrants, layers, nodes, their offsets) keep their full 64-bit value on every path from where they are computed or received to "
  "where they are stored, passed, compared or sent: none is narrowed to a local number, and none is computed as a 32-bit product first. A mesh with more than 2^31 elements behaves like a small one.",
  ["inputs"], "all meshes, all numbers of processes",
  "A narrowing only shows with more than two billion elements or an equally large product, far beyond any test.",
  ["src/p4est.c", "src/p6est.c", "src/p4est_communication.c", "src/p4est_algorithms.c", "src/p4est_lnodes.c", "src/p4est_nodes.c", "src/p4est_io.c", "src/p4est_wrap.c"],
  [("p4est_new_ext", "src/p4est.c"), ("p4est_comm_count_quadrants", "src/p4est_communication.c"), ("p6est_update_offsets", "src/p6est.c")],
  "magnitude (information flow) analysis over LLVM IR",
  "Flow through values, memory, fields and calls of the whole library. Array elements that hold local and global numbers in turn are not followed." + TB)

X = "quantifies over runtime values of whole meshes; "
N("C30", "Every forest is a complete, linear, ordered set of leaves",
  "After every operation the leaves of each tree cover its domain exactly once, without gap or overlap, ordered along the space filling curve over all processes.",
  ["inputs", "histories"], "all sequences of refinement, coarsening, balance and partition", "Tests check a handful of meshes.",
  ["src/p4est.c", "src/p4est_algorithms.c"], [("p4est_is_valid", "src/p4est_algorithms.c")],
  X + "completeness follows from loop invariants about coordinate arithmetic and array contents over unbounded histories, which no dataflow or typestate argument in reach bounds. "
  "Clauses with a structural part are decided elsewhere (C09, C16, C19, C20, C26).")
N("C31", "Balance establishes the 2:1 condition and nothing more",
  "After balance no leaf neighbours a leaf more than twice as fine across the chosen codimensions, and the result is the coarsest such refinement.",
  ["inputs"], "all meshes, connectivities and partitions", "Tests check a handful of meshes.",
  ["src/p4est.c", "src/p4est_balance.c"], [("p4est_balance_ext", "src/p4est.c")],
  X + "the condition relates coordinates and levels of pairs of leaves on different processes; its proof is an algorithmic argument about seeds and insulation layers, not a shape of the code.")
N("C32", "Partition distributes leaves equally and keeps them",
  "Partition moves leaves without loss, duplication or change and gives every process the prescribed number or weight of leaves.",
  ["inputs", "schedules"], "all meshes, weights and numbers of processes", "Tests use two processes.",
  ["src/p4est.c"], [("p4est_partition_given", "src/p4est.c")],
  X + "send and receive ranges are computed by arithmetic on runtime counts. Layout agreement of messages and lifetime of payload are decided in C10, C11 and C21.")
N("C33", "The ghost layer is exactly the set of remote neighbours",
  "The ghost layer contains each off-process leaf adjacent across the chosen codimensions once, in order, and mirrors match the ghosts of other processes.",
  ["inputs"], "all meshes and partitions", "Tests use two processes.",
  ["src/p4est_ghost.c"], [("p4est_ghost_new", "src/p4est_ghost.c")],
  X + "it is a geometric statement about sets of leaves across processes.")
N("C34", "Node numberings are globally unique and consistent",
  "Each independent node has exactly one global number, equal on all processes that see it; hanging nodes refer to the right parents.",
  ["inputs"], "all balanced meshes, degrees and partitions", "Tests use few meshes.",
  ["src/p4est_lnodes.c", "src/p4est_nodes.c"], [("p4est_lnodes_new", "src/p4est_lnodes.c")],
  X + "uniqueness and consistency compare values computed on different processes.")
N("C35", "Iteration visits every volume, face, edge and corner exactly once",
  "Each local volume and each interface touching a local leaf is visited once with correct sides and hanging information.",
  ["inputs"], "all meshes, connectivities and ghost layers", "Tests use few meshes.",
  ["src/p4est_iterate.c"], [("p4est_iterate_ext", "src/p4est_iterate.c")],
  X + "the recursion is driven by tables and leaf arrays; exactly-once is an inductive geometric invariant. The topology tables it uses are decided in C16.")
N("C36", "Search finds exactly the leaves, points and partitions sought",
  "Top-down searches present each branch and leaf exactly as documented and find every matching point; binary searches return the right index or -1.",
  ["inputs"], "all meshes and queries", "Tests use few queries.",
  ["src/p4est_search.c"], [("p4est_search_local", "src/p4est_search.c")],
  X + "index arithmetic over sorted arrays of unknown length needs arithmetic invariants or a solver.")
N("C37", "Inter-tree coordinate transformations compose to the identity",
  "Transforming a quadrant across a tree face, edge or corner and back gives the original quadrant.",
  ["inputs"], "all connectivities and quadrants", "Tests sample quadrants.",
  ["src/p4est_connectivity.c", "src/p4est_bits.c"], [("p4est_quadrant_transform_face", "src/p4est_bits.c")],
  X + "composition is arithmetic on coordinates; the constant tables behind it are decided in C16 and C17.")
N("C38", "Saved and loaded forests are value-identical",
  "Loading a saved forest on any number of processes gives the same leaves, data and connectivity values.",
  ["inputs"], "all forests and process counts", "Tests load a few files.",
  ["src/p4est.c", "src/p4est_io.c"], [("p4est_save_ext", "src/p4est.c")],
  X + "round trip equality of values; the layout clause (sizes, offsets, headers) is decided in C14 and error handling in C13.")
N("C39", "Checksums are independent of the partition and distinguish meshes",
  "The checksum of a forest is the same for every partition and changes with its leaves.",
  ["inputs"], "all forests and partitions", "Tests compare few checksums.",
  ["src/p4est_algorithms.c", "src/p4est_communication.c"], [("p4est_checksum", "src/p4est.c")],
  X + "it is a statement about the value of a hash over all leaves.")
N("C40", "Mesh neighbour tables are correct",
  "For each local leaf, face, edge and corner the mesh names the right neighbours, with orientation and hanging information.",
  ["inputs"], "all meshes", "Tests use few meshes.",
  ["src/p4est_mesh.c"], [("p4est_mesh_new_ext", "src/p4est_mesh.c")],
  X + "a geometric relation between leaves.")
N("C41", "Geometries are continuous across tree boundaries",
  "Predefined geometries map a shared tree boundary point to the same physical point from both sides.",
  ["inputs"], "all points", "Tests sample points.",
  ["src/p4est_geometry.c", "src/p8est_geometry.c"], [("p4est_geometry_new_connectivity", "src/p4est_geometry.c")],
  "a statement about floating point values of analytic formulas.")
N("C42", "Coarsening inverts refinement",
  "Uniform coarsening after refinement restores the forest; adaptive flags produce exactly the requested refinement.",
  ["inputs", "histories"], "all forests and call-backs", "Tests use few meshes.",
  ["src/p4est.c", "src/p4est_wrap.c"], [("p4est_coarsen_ext", "src/p4est.c")],
  X + "an inductive statement about arrays of leaves.")
N("C43", "Columns and layers of a p6est stay consistent",
  "The layer ranges stored in the columns of an extruded forest partition its layers in order, after every operation.",
  ["inputs", "histories"], "all extruded forests", "Tests use few meshes.",
  ["src/p6est.c"], [("p6est_is_valid", "src/p6est.c")],
  X + "index ranges stored in column payload are an arithmetic invariant over histories.")
N("C44", "Transfer delivers each payload to its leaf's new process",
  "Fixed and variable size transfer delivers exactly the bytes that belong to each leaf under the new partition.",
  ["inputs", "schedules"], "all partitions and payload sizes", "Tests use two processes.",
  ["src/p4est_communication.c"], [("p4est_transfer_fixed", "src/p4est_communication.c")],
  X + "ranges and offsets are runtime arithmetic. Request completion and message pairing are decided in C10 and C11.")
