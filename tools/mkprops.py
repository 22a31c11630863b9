#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
H = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Static work partition tiles the range exactly",
  "For every range [start, end) whose length is representable and every positive thread count, the per-thread sub-ranges handed out for thread 0..n-1 are in order, each begins where the previous one ended, together they cover the range exactly, and their lengths differ by at most one. Invalid arguments (end before start, non-positive thread count, thread number outside [0, n)) are rejected with an exception, and no intermediate computation overflows.",
  ["inputs"], "all 64-bit start/end/thread-count/thread-number combinations",
  "The quantifier is over the product of four 64-bit integers; tests sample a handful of small ranges with a few thread counts.",
  [H+"parallelism.hpp"], [("CalcStaticThreadRangeStartAndEnd", H+"parallelism.hpp"), ("ThreadWorkRange, DegreeOfParallelism", H+"parallelism.hpp")])
p("C02", "Parallel loops run every index exactly once, on any back end",
  "For every range, thread count and back end (OpenMP, async, best available), the static and dynamic parallel-for loops, in both range and index form, invoke the work function so that every index of [range start, range end) is visited exactly once, no index outside it is visited, and every reported thread number lies in [0, thread count). An exception thrown by the work function reaches the caller.",
  ["schedules", "inputs", "configurations"], "all ranges, thread counts and back ends, all orders in which workers are dispatched",
  "Tests run ranges starting at zero on the machine's thread count with one schedule; a start offset, an extreme range or an unusual dispatch order is never exercised.",
  [H+"parallelism.hpp", H+"openmp_helpers.hpp"], [("StaticParallelForRangeLoop / StaticParallelForIndexLoop", H+"parallelism.hpp"), ("DynamicParallelForRangeLoop / DynamicParallelForIndexLoop", H+"parallelism.hpp")])
p("C03", "Grid index <-> linear offset is a bijection inside the grid",
  "For every valid grid, converting an in-bounds (x, y, z) cell index to a linear storage offset and back is the identity, every in-bounds cell gets a distinct offset in [0, total cells), and every offset in that interval converts back to an in-bounds cell. The in-bounds test accepts a cell index exactly when every component lies in [0, count of that axis).",
  ["inputs", "configurations"], "all grids with positive per-axis counts whose product is representable; all 64-bit indices",
  "The quantifier ranges over all grid shapes and all indices with nonlinear index arithmetic; tests enumerate one or two small grids.",
  [H+"voxel_grid.hpp"], [("GridSizes::GetDataIndex / GetIndex / CheckGridIndexInBounds / CheckDataIndexInBounds", H+"voxel_grid.hpp")],
  [("stride1_, stride2_, num_*_cells_", "row strides derived from the cell counts", H+"voxel_grid.hpp")])
p("C04", "Voxel grid cell access touches exactly the addressed cell",
  "Reading an in-bounds cell by index returns the value most recently stored there; storing to one cell changes no other cell, and every out-of-bounds index or offset is reported as such (or answered with the out-of-bounds default value for reads) without changing anything. Whoever is asked to approve or record a mutable access is told exactly the cell index that is being accessed, and a refusal leaves the grid unchanged.",
  ["inputs", "histories"], "all grid shapes, all indices, all sequences of reads and writes",
  "Tests write and read cells of small grids; frame conditions (every other cell unchanged) and the mutable-access notification are never checked for all indices.",
  [H+"voxel_grid.hpp"], [("VoxelGridBase::GetIndexImmutable / GetIndexMutable / SetIndex / OnMutableAccess", H+"voxel_grid.hpp"), ("VoxelGridQuery family", H+"voxel_grid.hpp")],
  [("data_, sizes_", "cell storage and grid shape", H+"voxel_grid.hpp")])
p("C05", "Grid sizes are either rejected or positive and self-consistent",
  "Constructing a grid size description from cell sizes with cell counts or with overall dimensions either throws or yields positive finite cell sizes, positive cell counts and a total cell count equal to the product of the counts; a size description restored from bytes satisfies the same consistency or is marked invalid. Non-positive, infinite and not-a-number parameters are always rejected.",
  ["inputs"], "all double and 64-bit integer constructor arguments, including infinities and NaN",
  "Tests construct a few ordinary sizes; special floating-point values and zero or negative counts in each position are not covered.",
  [H+"voxel_grid.hpp"], [("GridSizes constructors / Initialize / DeserializeSelf", H+"voxel_grid.hpp")])
p("C06", "Serialization round-trips and reports exact byte counts",
  "For every value of every supported type (memcpyable scalars, strings, vectors of memcpyable or custom elements, maps and unordered maps, pairs, and the fixed and dynamic Eigen types), appending its serialized form to any buffer and deserializing at that offset yields an equal value. Serializing only appends, never altering bytes already in the buffer, and both directions report exactly the number of bytes written.",
  ["inputs"], "all values, all buffer prefixes and suffixes, all element serializers that satisfy the same contract",
  "Round trips are tested for a few values each, with small containers and mostly at offset zero.",
  [H+"serialization.hpp", S+"serialization.cpp"], [("SerializeMemcpyable / DeserializeMemcpyable", H+"serialization.hpp"), ("SerializeMemcpyableVectorLike, SerializeVectorLike, SerializeMapLike, SerializePair, SerializeString", H+"serialization.hpp"), ("Eigen specialisations", S+"serialization.cpp")])
p("C07", "Deserializing truncated or malformed buffers throws, never over-reads",
  "For every byte buffer and starting offset, deserializing any supported type either throws an exception or consumes only bytes that lie inside the buffer. In particular a truncated buffer, an offset past the end, or a length field larger than the remaining data (including lengths whose byte size overflows) never causes a read outside the buffer.",
  ["inputs"], "all byte strings and all 64-bit offsets",
  "The hostile inputs are all byte strings; tests only deserialize buffers the library itself just produced.",
  [H+"serialization.hpp", S+"serialization.cpp"], [("DeserializeMemcpyable, DeserializeMemcpyableVectorLike, DeserializeVectorLike, DeserializeMapLike", H+"serialization.hpp"), ("DeserializeVectorXd, DeserializeMatrixXd", S+"serialization.cpp")])
p("C08", "Network byte order encoding is big-endian and invertible",
  "Encoding any fixed-width value for the network produces its bytes most-significant first irrespective of host order, and decoding returns the identical value; the vector and string forms do the same per element and report exact byte counts.",
  ["inputs"], "all 8/16/32/64-bit values, all buffers",
  "Tests check a few constants; all bit patterns of all widths are the quantifier.",
  [H+"serialization.hpp"], [("SerializeNetworkMemcpyable / DeserializeNetworkMemcpyable and vector, string forms", H+"serialization.hpp")])
p("C09", "Base64 encoding is standard and decoding inverts it",
  "For every byte sequence, encoding yields the standard padded base64 text (length four times the number of three-byte groups, rounded up) and decoding that text returns the original bytes. Encoding and decoding never access memory outside their inputs and tables.",
  ["inputs"], "all byte sequences of every length; all strings for memory safety of decoding",
  "Tests round-trip a few random buffers; the 64-symbol table, each padding residue and every symbol position matter for all values.",
  [H+"base64_helpers.hpp", S+"base64_helpers.cpp"], [("Encode / Decode and their tables", S+"base64_helpers.cpp")])
p("C10", "Compression round-trips every buffer",
  "Decompressing the compressed form of any byte buffer yields the identical buffer, whatever its size relative to the internal chunk size. Corrupt or truncated compressed input is rejected with an exception rather than returning wrong data silently. Loading from a file decompresses exactly the file's content, and writing to a file writes exactly the compressed form.",
  ["inputs"], "all byte buffers, all chunk-boundary alignments",
  "Tests round-trip one or two buffers; lengths at every multiple of the chunk size and incompressible data are the hard cases.",
  [H+"zlib_helpers.hpp", S+"zlib_helpers.cpp"], [("CompressBytes / DecompressBytes", S+"zlib_helpers.cpp")])
p("C11", "Optional and tagged-union wrappers behave as value types",
  "An optional wrapper holds a value exactly when it was given one and not reset since; reading an empty one throws; copies are independent of and equal to the source, moves transfer the value, and assignment (including self-assignment) replaces the previous content, in every combination of empty and full operands. The tagged union holds exactly the alternative last stored: its tag names the one live member, every other member is dead, and each value stored is destroyed exactly once.",
  ["histories", "inputs"], "all sequences of construct, copy, move, assign, reset and read",
  "Tests try a few sequences; correctness is over all operation histories and both states of each operand.",
  [H+"maybe.hpp"], [("OwningMaybe, ReferencingMaybe, TaggedUnion", H+"maybe.hpp")])
p("C12", "Small utilities respect their mathematical contracts",
  "Clamping returns the nearest value inside the interval and rejects inverted intervals; spreading moves a value strictly between the thresholds to the threshold of its side of the midpoint, leaves every other value alone and rejects disordered thresholds; testing or setting one bit affects that bit only; random index selection always lies inside the container (and random selection from an interval inside the interval, whenever its number of values fits the index type) for every unit sample in [0, 1); equality and subset comparisons agree with multiset semantics for every collection; extracting keys yields every key once in the container's order, and building a map from keys and values binds each key to its last value and rejects unequal lengths.",
  ["inputs"], "all scalar values including infinities, all bit positions, all unit samples, all collections",
  "Tests sample few values; boundary values (infinities, sign bit, sample just below one) are the interesting ones.",
  [H+"utility.hpp"], [("ClampValue, SpreadValue, GetBit/SetBit, GetUniformRandomIndex/InRange, CollectionsEqual, IsSubset, GetKeys*, MakeFromKeysAndValues, RetrieveOrDefault", H+"utility.hpp")])
p("C13", "Graph mutators keep edge linkage symmetric and in range",
  "In a directed graph built and changed only through its public adding operations, every outgoing edge of a node names that node as source, an existing node as target, and has a matching incoming edge recorded at the target, and vice versa. Adding a node or edge changes nothing else, operations naming a non-existent node throw without modifying the graph, and a graph passes the linkage check exactly when that relation holds.",
  ["histories", "inputs"], "all graphs and all sequences of node and edge additions, with valid and invalid indices",
  "Tests build one or two fixed graphs; the invariant is inductive over all histories.",
  [H+"simple_graph.hpp"], [("Graph::AddNode / AddEdgeBetweenNodes / AddEdgesBetweenNodes", H+"simple_graph.hpp"), ("CheckGraphLinkage", H+"simple_graph.hpp")],
  [("nodes_, in_edges_, out_edges_", "adjacency of each node", H+"simple_graph.hpp")])
p("C14", "Pruning a graph keeps exactly the unpruned nodes and edges",
  "Pruning a set of nodes yields a graph holding the remaining nodes in their original order with the same values, and exactly the edges whose both endpoints remain, re-indexed consistently with weights preserved. The result satisfies the linkage relation whenever the input does, in serial and in parallel.",
  ["inputs", "configurations"], "all graphs and all prune sets, with any degree of parallelism",
  "One prune of one fixed graph is tested; index shifting depends on the relative order of every pruned index and every edge endpoint.",
  [H+"simple_graph.hpp"], [("Graph::PruneGraph", H+"simple_graph.hpp")])
p("C15", "A graph overlay behaves like a private copy of its base",
  "Adding nodes and edges through a non-owning or owning overlay gives the same observable graph as performing the same operations on a copy of the base graph, and never changes the base graph.",
  ["histories"], "all base graphs and all sequences of additions through the overlay",
  "Tests compare a single planning query; equivalence must hold after every history of additions.",
  [H+"simple_graph.hpp"], [("NonOwningGraphOverlay / OwningGraphOverlay", H+"simple_graph.hpp")])
p("C16", "Shortest-path tables of graph search are exact",
  "For every graph with non-negative edge weights and every start node, the computed distance of each node equals the minimum total weight over all paths from that node's perspective of the search (infinite when unreachable), the start has distance zero, and every recorded predecessor is a real neighbour whose distance plus the edge weight gives the node's own distance.",
  ["inputs"], "all finite graphs with non-negative weights, all start nodes",
  "Optimality is universally quantified over graphs and paths; tests compare a few hand-computed distances.",
  [H+"simple_graph_search.hpp"], [("PerformDijkstrasAlgorithm", H+"simple_graph_search.hpp")])
p("C17", "A* returns valid, correctly priced, least-cost paths",
  "Whenever A* reports a path it starts at one of the given starts, ends at a goal, every step is an existing valid transition, and the reported cost is the sum of its start and transition costs; with an admissible consistent heuristic (including zero) no valid path from any start is cheaper. It reports no path exactly when no goal is reachable.",
  ["inputs"], "all finite graphs, starts with costs, goals, admissible consistent heuristics, with or without queue de-duplication and lazy edge checks",
  "Tests solve one or two fixed mazes with a single start; optimality over all graphs and several weighted starts is out of reach for sampling.",
  [H+"simple_astar_search.hpp", H+"simple_graph_search.hpp"], [("PerformAstarSearch (generic)", H+"simple_astar_search.hpp"), ("PerformAstarSearch / PerformLazyAstarSearch (graph)", H+"simple_graph_search.hpp")])
p("C18", "K-nearest-neighbour search returns the K closest items",
  "For every collection, query, non-NaN distance function and K, the search returns min(K, size) distinct in-range indices, each with its true distance, such that no omitted item is strictly closer than a returned one. Serial and parallel searches, and any degree of parallelism, satisfy this, and invalid K is rejected.",
  ["inputs", "configurations"], "all collections, distance functions, K and thread counts",
  "Tests use a couple of point sets; ties, K around the size and every partition of the work matter.",
  [H+"simple_knearest_neighbors.hpp"], [("GetKNearestNeighborsInRangeSerial / GetKNearestNeighborsInRangeParallel / GetKNearestNeighbors", H+"simple_knearest_neighbors.hpp")])
p("C19", "Hausdorff distance equals its max-min definition",
  "The directed Hausdorff distance computed from a distance function or from a distance matrix equals the largest, over the first set, of the smallest distance to the second set, independent of serial or parallel execution; empty inputs and mis-sized matrices are rejected.",
  ["inputs", "configurations"], "all non-empty collections, non-negative distances, thread counts",
  "Tests evaluate one small pair of sets.",
  [H+"simple_hausdorff_distance.hpp"], [("ComputeDistance serial/parallel, function/matrix", H+"simple_hausdorff_distance.hpp")])
p("C20", "Dynamic time warping returns the minimum warping cost",
  "For every pair of non-empty sequences and non-negative distance function, the returned cost equals the least total cost over all monotone alignments, i.e. it satisfies the dynamic-time-warping recurrence, irrespective of what the same evaluator computed before.",
  ["inputs", "histories"], "all sequences, distance functions and evaluator reuse histories",
  "Tests compare one or two sequences; ties between predecessor cells and evaluator reuse with other sizes are never reached.",
  [H+"simple_dtw.hpp"], [("SimpleDTW::EvaluateWarpingCost, ComputeDTWDistance", H+"simple_dtw.hpp")])
p("C21", "Hierarchical clustering partitions the data within the distance bound",
  "For every data set, distance and threshold, clustering assigns every item to exactly one cluster, no cluster is empty, and under complete linkage no two items of a cluster are farther apart than the threshold; the result does not depend on whether the computation is parallel, and the cluster spacing reported does not undercut the merges performed.",
  ["inputs", "configurations"], "all data sets, symmetric distance functions, thresholds and linkage strategies",
  "Tests cluster one tiny set.",
  [H+"simple_hierarchical_clustering.hpp"], [("Cluster, ClusterWithDistanceMatrix, MakeEnumeratedClusters", H+"simple_hierarchical_clustering.hpp")])
p("C22", "K-means labels every item with the nearest final cluster",
  "K-means clustering gives every item exactly one label in [0, number of clusters). Initial cluster centres are distinct items of the data or centres of a preliminary clustering, each recomputed centre is the (weighted) average of exactly the items carrying its label with their own weights, the assignment step picks a cluster whose centre is nearest, and the labels returned are stable: every item's label is nearest among the centres computed from those same labels. A number of clusters that is not positive or exceeds the number of items is rejected.",
  ["inputs"], "all data sets, distance and averaging functions, cluster counts",
  "One fixed data set is tested.",
  [H+"simple_kmeans_clustering.hpp"], [("PerformSingleClusteringIteration, Cluster, ClusterWeighted", H+"simple_kmeans_clustering.hpp")])
p("C23", "Path shortcutting preserves endpoints and validity; resampling preserves waypoints and bounds gaps",
  "Shortcut smoothing returns a path with the same first and last waypoint whose every consecutive edge was present in the input, or accepted by the edge check in that direction, or (when resampling without the check for marginal shortcuts) is one of the equal pieces, in order, of an accepted edge; without resampling it never has more waypoints than the input, and it ends within the iteration limit for every random stream. Resampling keeps every waypoint of the input in order, the first and last included, and every gap it leaves is at most the requested distance; distances that are not positive are rejected.",
  ["inputs", "histories"], "all paths, validity and interpolation functions, random streams and limits",
  "Tests smooth one path under one seed.",
  [H+"path_processing.hpp"], [("ShortcutSmoothPath, AttemptShortcut, ResamplePath", H+"path_processing.hpp")])
p("C24", "Planner trees keep parent/child links consistent",
  "In a search tree grown only through its adding operations every non-root node's parent precedes it and lists it as a child, every listed child names its parent, additions under a parent that does not exist are rejected without touching the tree, and solution extraction returns exactly the root-to-node chain of values in order. A node collection is accepted as a tree exactly when its links are consistent in that sense.",
  ["histories", "inputs"], "all sequences of node additions; all candidate node collections",
  "Tests grow a tree in one scenario and check paths only indirectly.",
  [H+"simple_rrt_planner.hpp"], [("SimpleRRTPlannerTree::AddNode / AddNodeAndConnect / CheckNodeLinkage / SetNodes", H+"simple_rrt_planner.hpp"), ("ExtractSolutionPath(s)", H+"simple_rrt_planner.hpp")])
p("C25", "Sampling-based planners only return connected start-to-goal paths",
  "Every path returned by the single- and bi-directional tree planners begins at a root of the start tree, ends at a state accepted by the goal check (or joins both trees at states reported connected), and each step is a link of the tree given or was produced by the propagation function from its predecessor on the root's side. Nodes given keep their place. Planners work with every combination of optional callbacks present or absent, and growth per iteration is exactly the propagated states.",
  ["inputs", "histories", "configurations"], "all sampling, nearest-neighbour, propagation, goal and termination functions and optional callbacks",
  "Tests run one environment; callback combinations and adversarial propagation results are not exercised.",
  [H+"simple_rrt_planner.hpp"], [("RRTPlanMultiPath / RRTPlanSinglePath / BiRRTPlanMultiPath / BiRRTPlanSinglePath", H+"simple_rrt_planner.hpp")])
p("C26", "Roadmaps only contain validated, correctly weighted edges",
  "Adding a state to a roadmap either returns the index of an existing state at distance zero (when duplicates are not wanted) or appends exactly that state; every edge added connects it to one of its nearest neighbours, passed the edge check in its own direction, carries the distance for that direction, and the linkage relation of the roadmap is preserved. Growing a roadmap adds only states that passed the state check, through the same step, until told to stop. Re-evaluating edges sets every edge weight to the current distance when valid and to infinity otherwise, consistently at both endpoints.",
  ["inputs", "configurations"], "all roadmaps, states, neighbour providers, validity and distance functions, symmetric or not, serial or parallel",
  "Tests build one roadmap in one environment with a symmetric metric.",
  [H+"simple_prm_planner.hpp"], [("AddNodeToRoadmap, GrowRoadMap, BuildRoadMap, UpdateRoadMapEdges", H+"simple_prm_planner.hpp")])
p("C27", "Spatially hashed grids read back what was stored, chunk by chunk",
  "In a spatially hashed grid a location is answered from its cell if the cell was set, from its chunk if the whole chunk was set, and as unknown otherwise; storing through a location affects exactly the cell or chunk containing it, allocates exactly the chunk containing it with every other cell at the default value, and leaves all other chunks unchanged.",
  ["histories", "inputs"], "all sequences of cell and chunk writes at all finite locations",
  "Tests touch a few locations; locations on chunk boundaries, negative coordinates and mixed cell/chunk writes are the quantifier.",
  [H+"dynamic_spatial_hashed_voxel_grid.hpp"], [("DynamicSpatialHashedVoxelGridBase / DynamicSpatialHashedVoxelGridChunk", H+"dynamic_spatial_hashed_voxel_grid.hpp")])
p("C28", "Task planning selects only registered, applicable primitives",
  "The primitive collection never holds two primitives with the same name: registering a duplicate is rejected without changing the collection, and unregistering removes exactly the primitives named and keeps the order of the rest. A planned sequence is a chain from a start state in which each step is an outcome that the primitive it names offers for its predecessor, being a candidate for it, and it ends where the completion check accepts; every outcome of every applicable primitive is considered. The next primitive to execute is the registered one making the first step of the plan, from the potential outcome reported as chosen, and is absent exactly when that outcome is complete already. A task execution performs only such primitives on the outcome chosen, records those states in order, performs no more than the maximum number of executions, stops early only at a complete state, and tells every callback provided (in every combination) of every step.",
  ["histories", "inputs"], "all sets of primitives, candidates, outcomes, start states, heuristics, limits on executions and combinations of callbacks",
  "One toy domain is tested.",
  [H+"simple_task_planner.hpp"], [("ActionPrimitiveCollection, PlanTaskStateSequence, GetNextPrimitiveToExecute, PerformSingleTaskExecution", H+"simple_task_planner.hpp")])
p("C29", "Random generators are reproducible functions of their seed",
  "Two generators of the same kind given the same seed, whether at construction or by re-seeding at any point of their life, produce identical streams; discarding n values is equivalent to drawing n values, every output lies in the declared range, random rotations are determined by the state of the generator they draw from and are unit quaternions (or Euler angles within one turn), and samples of a truncated normal distribution with positive standard deviation lie, up to rounding, inside the requested bounds.",
  ["histories", "inputs"], "all seeds and all interleavings of draws, discards and re-seedings",
  "Tests do not compare streams after re-seeding or discarding.",
  [H+"simple_prngs.hpp", H+"random_rotation_generator.hpp", H+"gaussian_distributions.hpp"], [("SplitMix64PRNG, XorShift128PlusPRNG, XorShift1024StarPRNG", H+"simple_prngs.hpp")])
p("C30", "Continuous-angle helpers stay on the circle",
  "Wrapping any finite angle gives a value in [-pi, pi] that is the same angle, and is unchanged, up to rounding, when already inside [-pi, pi); signed and absolute angular distances and angle ranges lie in [-pi, pi], [0, pi] and [0, 2 pi] respectively, and interpolation between angles stays on the circle for every ratio.",
  ["inputs"], "all finite doubles",
  "Floating-point boundary behaviour around multiples of pi cannot be settled by samples.",
  [H+"math.hpp", S+"math.cpp"], [("EnforceContinuousRevoluteBounds, ContinuousRevoluteSignedDistance, InterpolateContinuousRevolute, GetContinuousRevoluteRange", S+"math.cpp")])
p("C31", "Element-wise vector arithmetic and distance matrices match definitions",
  "Element-wise vector helpers return a vector of the input length whose every entry is the stated operation on the corresponding entries and reject mismatched lengths; a pairwise distance matrix holds exactly the distance of each pair, is symmetric with zero diagonal when built over one collection, irrespective of parallelism; weighted averages use every non-zero weight and reject all-zero weights and mismatched sizes.",
  ["inputs", "configurations"], "all vectors, weights, distance functions and thread counts",
  "Tests evaluate few vectors.",
  [H+"math.hpp", S+"math.cpp"], [("Abs, Multiply, Divide, Add, Sub, Interpolate, SquaredNorm, AverageStdVectorDouble", S+"math.cpp"), ("BuildPairwiseDistanceMatrix", H+"math.hpp")])
p("C32", "Colour construction clamps and maps channels faithfully",
  "Colours built from floats or bytes carry each channel in its own position with values clamped to [0, 1] or 0..255, integer and hexadecimal conversions invert each other, and colour lookups (by key, different for different keys of the table, or by interpolation over a non-empty range) return a valid in-range colour for every key and value; two colours are equal exactly when every channel is within the tolerance.",
  ["inputs"], "all float and byte channel values, all lookup keys",
  "Only a couple of colours appear in tests or examples.",
  [H+"color_builder.hpp"], [("color builder functions", H+"color_builder.hpp")])
p("C33", "Trajectory time parametrization respects limits and endpoints",
  "A successful time-optimal parametrization starts at the first and ends at the last waypoint at rest, has a finite positive duration, stays near the path and never exceeds the given velocity and acceleration limits beyond numerical tolerance.",
  ["inputs"], "all waypoint paths and positive limits",
  "The quantity is a numerically integrated continuous trajectory; tests sample one path.",
  [H+"time_optimal_trajectory_parametrization.hpp", S+"time_optimal_trajectory_parametrization.cpp"], [("ParametrizePathTimeOptimal", S+"time_optimal_trajectory_parametrization.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
