TB = ' Trusted: the extractor and VC generator, the solvers, the assumed standard-library/Eigen contracts listed in the evidence.'
CLAIMS = {
 'C01': ('proof', 'Every obligation discharged for all 64-bit inputs whose range length is representable; machine overflow is an obligation.' + TB),
 'C02': ('proof', 'All obligations for the four loops, both backends, all ranges and thread counts; OpenMP and std::async regions are checked as sequentialised bodies with exceptions and captured state (data races between bodies of the work function are the caller\'s), covered in addition by a bounded run of the real threads.' + TB),

 'C03': ('proof', 'Every obligation (overflow included) discharged for all grids whose cell count is representable, all cells and all offsets; forwarding through VoxelGridBase included.' + TB),
 'C04': ('proof', 'All index and raw-offset accessors (both index forms, const and move stores, mutable/immutable, reset, raw data) under contract with an arbitrary derived class deciding approvals; location-based accessors are covered by the bounded stand-in only.' + TB),
 'C05': ('proof', 'All constructors, restoration from bytes; exact IEEE comparisons and classification, floating division/ceil/conversion uninterpreted (their results are only constrained by the code\'s own checks).' + TB),
 'C06': ('proof', 'Round trip, byte counts, header layout and frame (earlier bytes unchanged) of every serializer/deserializer pair as separate contracts over the byte contents; memcpy and object representation are modelled byte-exactly; element serializers are assumed to satisfy the same contract (stated precondition); lengths below 2^59.' + TB),
 'C07': ('proof', 'For every buffer content and every 64-bit offset: each memory access of each deserializer is an obligation, and the consumed range is inside the buffer. Custom element deserializers are assumed to satisfy the same contract. Graph and grid deserializers compose these; they are exercised additionally by the bounded program.' + TB),
 'C08': ('proof', 'Byte order, invertibility, counts, in-place bounds for 8/16/32/64-bit integer and floating types, strings, vectors, maps and sets.' + TB),
 'C09': ('proof', 'Encode, Decode on encoded text and Decode on arbitrary text for all lengths; the two tables are checked entry by entry against the standard alphabet.' + TB),
 'C11': ('proof', 'Every constructor, copy/move, assignment (incl. self), destruction, reset and read of the tagged union and of the owning and referencing optionals, for a symbolic element type; the live member of the union is tracked as ghost state. Assumes element copy and move operations do not throw.' + TB),
 'C12': ('proof', 'Clamp/Spread for double, float (IEEE, with NaN and infinities) and integers; SetBit/GetBit on 8/16/32/64-bit words as bit-vectors; random index and range selection over rounded reals; collections over a symbolic key type with counting ghosts. Log variants are inlined.' + TB),
 'C13': ('proof', 'Every mutator of the graph, the linkage check, construction from nodes and restoration from bytes, over a symbolic value type; mutable node access is outside the property.' + TB),
 'C14': ('proof', 'PruneGraph: the copy loop, both edge filters, both renumberings and the resulting linkage are proved for every graph and every set of its nodes, with the parallel loop replaced by its contract from C02' + TB),
 'C15': ('proof', 'Construction, every read, mutable access, AddNode, both edge operations and the linkage check of the non-owning overlay against the presented-graph view, base unchanged in every outcome; the owning overlay adds only shared ownership (checked at run time)' + TB),
 'C16': ('proof', 'PerformDijkstrasAlgorithm: queue, table and predecessor invariants for every graph with non-negative weights under rounded addition (commutative, monotone, never below a summand); least total by rule induction; termination is not proved (bounded search only)' + TB),
 'C17': ('proof', 'Search over states and over graph nodes verified with loop invariants (queue, explored and duplicate tables, path extraction) over exact real arithmetic: a path exactly when a goal is reachable, along real transitions, the reported cost pays for the path, and for admissible heuristics no path is cheaper (rule-induction lemma over cost-to-go); the five wrapping entry points verified to start the search on the right problem. That the cost equals the sum also for inadmissible heuristics is covered by the bounded harness only; termination is not proved.' + TB),
 'C18': ('proof', 'KNN serial, parallel, wrappers: K or all, true distances, distinct, omitted items no closer; pigeonhole lemma; parallel range loop by slot contract' + TB),
 'C19': ('proof', 'all six functions: the result is the ghost maximum of the ghost minima, for every thread count and schedule (per-thread slot invariants); wrappers pass their arguments on' + TB),
 'C20': ('proof', 'evaluator and wrapper against the recurrence' + TB),
 'C22': ('proof', 'all five functions; recursion by its own contract' + TB),
 'C30': ('proof', 'exact arithmetic for congruence, IEEE doubles for the bounds' + TB),
 'C31': ('proof', 'element-wise operations bit for bit (uninterpreted IEEE operations), totals and averages in exact arithmetic' + TB),
 'C29': ('proof', 'draws stay in range' + TB),
 'C32': ('proof', 'IEEE floats and bit-vector bytes' + TB),
 'C23': ('proof', 'real arithmetic; interpolation axioms for resampling' + TB),
 'C24': ('proof', 'all node collections and all sequences of additions' + TB),
 'C25': ('proof', 'RRT and BiRRT planners proved over ghost histories; single-path planners against the multi-path contract' + TB),
 'C26': ('proof', 'AddNodeToRoadmap, GrowRoadMap, UpdateRoadMapEdges, neighbour-provider checks and the linear provider over Graph; BuildRoadMap only bounded (harness). A provider is assumed to return no node twice and the distances of the distance function' + TB),
 'C28': ('proof', 'all collections and all changes to them; planning hands the search exactly the outcomes of the applicable primitives (the search itself is proved under C17, used here by its contract); selection and execution for all primitives, outcomes and callbacks. Assumed: state equality is reflexive, hash respects it, fewer than 2^31-1 executions in one call.' + TB),
 'C10': ('proof', 'all buffer contents and lengths, however zlib splits its work over calls; zlib itself is assumed by contract (each call takes a prefix of the input offered and makes a next piece of one output stream; the end is reported exactly when the stream is whole; a whole deflated stream inflates to what was deflated), as are file streams.' + TB),
 'C27': ('proof', 'all locations, histories (each operation from any state satisfying the class invariant, which it keeps) and both value forms, with coordinates as real numbers: rounding at chunk boundaries is covered by the bounded harness only. Chunk regions and transforms are opaque to the grid; the region class is proved separately. Assumed: approval is a function of the location; the cells of a chunk fit in memory.' + TB),
}
NA = {'C33': 'The numeric integration of time-optimal trajectories (phase-plane switching with tolerances) has no contract within reach of a first-order verifier that is both true for IEEE doubles and meaningful to a user.'}
