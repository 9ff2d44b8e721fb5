prop("C10", "Samples stay inside the state space for every random stream",
     "Every sampled state lies within the bounds of its state space, whatever the random engine delivers and however extreme the bounds, the mean and the spread are; sampling several states returns exactly that many. A state is accepted exactly when every coordinate is within the bounds, and enforcing the bounds changes only the coordinates outside. "
     "Samples cover the space as asked (uniformly, or around the mean with the given spread, folded at the bounds), successive samples are fresh draws, and a failed entropy source or allocation affects neither the bounds nor any later sampling.",
     ["inputs", "fault_sequences", "histories"], "for every random stream, every bounds, mean and spread, every sequence of sampling calls and every failing entropy source or allocation",
     "The tests draw a few samples from one random stream with ordinary bounds; rounding at the bounds and failures of the entropy source never occur in them.",
     ["state_space/state_space_r2.cpp", "state_space/state_space_se2.cpp", "state_space/state_space.h", "utils/random.h"],
     [("sampling and clamping", S + "state_space/state_space_se2.cpp"), ("random engine wrapper and its initialisation", S + "utils/random.h")],
     ["every sampled state"], "Seeded search over random streams, bounds and failing entropy; oracle: interval membership, counts, and distribution bounds at seven standard deviations.")
prop("C16", "Editing a path keeps the states it covered",
     "A path runs from its initial to its final state over its length: appending parts and cutting a path at a ratio leaves the states, lengths and directions before the cut exactly where they were, the final state at the cut, and nothing after it. "
     "This holds for every kind of path (straight, Reeds-Shepp, constant steering, composite), every sequence of cuts and appends, cuts on the boundary between parts, parts of zero length and appends that fail half-way.",
     ["histories", "inputs", "fault_sequences"], "for every path of every family, every sequence of cuts and appends, and every append that fails half-way",
     "The tests interpolate untouched paths of a few families; no test cuts a path twice, appends after a cut or looks at a direction.",
     ["paths/path_composite.cpp", "paths/path_reeds_shepp.cpp", "paths/path_constant_steer.cpp", "paths/path_se2.cpp", "paths/path_r2.cpp", "paths/path.h"],
     [("splitting of a ratio into part and local ratio", S + "paths/path_composite.cpp"), ("cutting a sequence of motions", S + "paths/path_reeds_shepp.cpp")],
     ["length, initial and final state, states and directions along the path after every operation"], "Seeded search over edit histories; oracle: untouched copies of the parts, evaluated at the covered length.")
prop("C12", "The profiling trace keeps every completed scope, whatever the disk does",
     "From the moment a profiled scope ends, however it ends, its event is in the trace file exactly once, in order of completion, even if the process dies right then; an ended session is a complete, readable JSON document. "
     "Short and interrupted writes lose nothing, a failed write or a full disk never destroys earlier events, a file that cannot be opened or memory that runs out costs at most the events concerned, and nothing of this ends the program or changes what the planner computes.",
     ["histories", "fault_sequences", "crash_points"], "for every sequence of sessions and nested scopes, every point of process death, and every failing, short or interrupted file operation or allocation",
     "The profiler is not compiled into the tests; no test fails a file operation.",
     ["debug/profiler.cpp", "debug/profiler.h", "utils/singleton.h"],
     [("event formatting and flushing", S + "debug/profiler.cpp"), ("scope timer", S + "debug/profiler.h"), ("session lifetime", S + "utils/singleton.h")],
     ["bytes of the trace file after every operation"], "Seeded search over histories, crash points and disk faults on a simulated disk; oracle: model of the completed events, tolerant JSON reader.")
prop("C13", "Measured durations follow the monotone clock",
     "A timer reports the time that has passed since it was created or last restarted, and a profiled scope the time it was open, on the monotone clock: changes of the system time in either direction do not matter, readings do not disturb the measurement, intervals from nanoseconds to years are right to the precision of the type, and seconds and milliseconds agree.",
     ["histories", "fault_sequences"], "for every sequence of starts, restarts, readings and nested scopes, every interval length and every jump of the system time",
     "Tests cannot set the clock, and no test uses the timer.",
     ["core/timer.h", "debug/profiler.h"],
     [("elapsed time", S + "core/timer.h"), ("scope duration", S + "debug/profiler.h")],
     ["every reading, and the durations in the trace"], "Seeded search over clock histories on simulated clocks; oracle: the simulated monotone clock.")
prop("C14", "Exported images show the field or are recognisably incomplete",
     "An exported image has one pixel per cell, the map's y axis upwards, and the right brightness in every pixel: black on obstacles and unreachable cells, otherwise scaled by the path cost (Voronoi field, coloured by obstacle) or the cost to the goal. "
     "If the disk fails or fills up, a file that has the full size is still right; the file is closed, other files, the planner and later exports are unaffected, and a file that cannot be opened is not an error for the caller.",
     ["histories", "inputs", "fault_sequences"], "for every map history and goal, every sequence of exports and every failing, short or interrupted file operation",
     "No test exports an image.",
     ["state_validator/gvd.cpp", "algo/heuristics.cpp"],
     [("Voronoi field export", S + "state_validator/gvd.cpp"), ("cost-to-go export", S + "algo/heuristics.cpp")],
     ["bytes of the exported file"], "Seeded search over histories and disk faults on a simulated disk; oracle: pixels recomputed from the public fields and an independent Dijkstra search.")
prop("C11", "Planners in different threads do not influence each other",
     "Threads that each use their own planner, map, path and sampler objects, and read a map none of them changes, get exactly the results they get when running alone, under every interleaving and whatever searches are aborted in other threads; no memory is accessed by two threads without synchronisation, nobody waits forever, and the profile of all of them is complete and readable.",
     ["schedules", "histories", "fault_sequences"], "for every interleaving of two or three threads at the granularity of memory accesses, every combination of planners and every point at which a callback fails",
     "The tests are single-threaded; races depend on the interleaving.",
     ["utils/random.h", "debug/profiler.cpp", "debug/profiler.h", "algo/hybrid_a_star.cpp", "algo/rrt.h", "state_validator/gvd.cpp", "geometry/reeds_shepp.cpp"],
     [("random engines", S + "utils/random.h"), ("profiler lock", S + "debug/profiler.cpp"), ("read-only queries of maps and diagrams", S + "state_validator/gvd.cpp")],
     ["hash of the results of every job, together and alone; every memory access; bytes of the trace file"], "Seeded search over thread schedules, own scheduler and happens-before detector behind -fsanitize=thread instrumentation; oracle: the same jobs run alone.")
prop("C18", "A singleton has one instance at a time",
     "Whatever threads ask a thread-safe singleton for its instance at the same time, one object is constructed, all of them get that object and see it completely constructed; a constructor that fails is reported to the caller that ran it, leaves no instance, and the next request tries again; a release, also by several threads, destroys the instance once and the next request constructs a new one. "
     "The single-threaded singletons keep their instance from initialisation to release in the same way.",
     ["schedules", "histories", "fault_sequences"], "for every interleaving of requests and of releases, every history of them and every constructor that fails",
     "No test uses a singleton; a broken double check only shows under particular interleavings.",
     ["utils/singleton.h"],
     [("double-checked construction", S + "utils/singleton.h")],
     ["objects constructed, destroyed and returned; every memory access"], "Seeded search over thread schedules with failing constructors; oracle: ledger of constructions, happens-before detector.")
prop("C19", "Smoothing returns safe paths, keeps fixed points and forgets past requests",
     "A smoothed path has the states of the path it was given in number and heading; its ends, and the changes of direction with their neighbours, stay exactly where they were, and every state is valid, or the request reports failure. "
     "The other states follow the gradient of the documented terms (distance to the original path, smoothness, clearance up to the unsafe radius, Voronoi field, excess curvature), each with its weight, without reacting to obstacles or Voronoi edges that do not exist; the status tells whether the iteration limit or the step tolerance ended it, and nothing depends on earlier requests, also aborted ones.",
     ["histories", "inputs", "fault_sequences"], "for every path, set of fixed states, weights, map history, sequence of requests and re-initialisations, and every failing validity check or allocation",
     "No test calls the smoother.",
     ["algo/smoother.cpp", "algo/smoother.h"],
     [("descent and choice of the states that may move", S + "algo/smoother.cpp"), ("curvature term", S + "algo/smoother.cpp")],
     ["status and states of every smoothed path"], "Seeded search over histories with failing callbacks; oracle: reference model with numerically differentiated terms, validity recomputed from the map, a new smoother.")
prop("C20", "The Python interface does what the native engine does, and keeps what it uses",
     "A Python program gets, call by call and bit for bit, what the same program gets from the native engine: maps, obstacles, Voronoi diagrams, validators, paths, samples, grid searches with Python callbacks or Python-defined maps and heuristics, validators, connections and planners defined in Python, Hybrid A* searches, parameters and status values. "
     "Objects handed to a planner, validator or diagram stay usable for as long as it needs them, whatever references the program drops and whenever garbage is collected, also inside a callback; an exception raised by a callback reaches the caller unchanged, an unusable answer or missing object is an error and never a crash, and the objects can be used again afterwards.",
     ["histories", "fault_sequences", "inputs"], "for every sequence of calls, every set of references dropped and moment of garbage collection, and every callback that raises or returns something unusable",
     "The Python tests make one search with every object still referenced and callbacks that succeed.",
     ["interfaces/python/src/pyplanning.cpp"],
     [("exported names, types and ownership", "interfaces/python/src/pyplanning.cpp"), ("callbacks into Python", "interfaces/python/src/pyplanning.cpp"), ("null obstacles", S + "state_validator/obstacle_list_occupancy_map.cpp")],
     ["every value returned to Python; exceptions; life of the Python objects"], "Seeded search over Python programs in an embedded interpreter with dropped references, garbage collections and failing callbacks; oracle: the same history run natively.")
prop("C21", "A connection drives to its goal, and no drive there is shorter",
     "The Reeds-Shepp connection of two poses is a drive of a car that starts at the first, ends at the second and never turns sharper than the turning radius; no drive between the poses that respects the radius is shorter than the shortest connection, its parts are shortest connections too, the way back and the mirrored way are as long, and the stated distance is its length. "
     "Its cost is that of its motions, and the cheapest connection is not dearer than any connection found under other weights. The cost-to-go without obstacles is the cost of the cheapest connection from a pose within half a cell and half an angular step, or the weighted straight line beyond its table, for every goal set before. The bicycle model takes the car where its axles and steering angle take it, on the circle that was asked for.",
     ["inputs", "histories", "fault_sequences"], "for every drive, pair of poses, turning radius, set of weights, table and sequence of goals, also when a request before ran out of memory",
     "The tests look at the words chosen for 48 goals, never at where the connection ends, and at no goal a plain drive reaches.",
     ["geometry/reeds_shepp.cpp", "paths/path_reeds_shepp.cpp", "algo/heuristics.cpp", "models/kinematic_bicycle_model.cpp"],
     [("solver", S + "geometry/reeds_shepp.cpp"), ("connection", S + "paths/path_reeds_shepp.cpp"), ("cost-to-go table", S + "algo/heuristics.cpp"), ("bicycle model", S + "models/kinematic_bicycle_model.cpp")],
     ["motions, states, lengths and costs of connections; estimates; final states of driven arcs"], "Seeded search over simulated drives; oracle: the simulated car (an upper bound for the shortest way), re-driven motions, optimality of parts.")
prop("C22", "The open list and the search tree behave like their models",
     "The open list of the searches holds what was pushed and neither popped nor removed, each element once and with the priority of its first push; it hands out an element none precedes, finds and removes exactly the element asked for, whatever the number of equal priorities and colliding hashes. "
     "A search tree holds each state once, under the node asked for or the nearest one, with parents, children, siblings, depths and traversals in agreement; its nearest neighbours are the nearest states, and a change of parent moves the branch and nothing else (a new parent from inside the branch takes its place), so that no node is lost. After an operation that failed in a comparison or for lack of memory, the container can be emptied and used again.",
     ["histories", "fault_sequences"], "for every sequence of operations, every order of priorities, every shape of tree and every comparison or allocation that fails",
     "The tests make one or two short sequences with different priorities and reparent two shapes of tree.",
     ["utils/frontier.h", "utils/tree.h", "utils/node.h"],
     [("open list", S + "utils/frontier.h"), ("search tree", S + "utils/tree.h"), ("nodes and change of parent", S + "utils/node.h")],
     ["contents and order of the list; parents, children and neighbours in the tree"], "Seeded search over histories of operations with failing comparisons and allocations; oracle: small executable models (a map of priorities, a parent array).")
prop("C23", "A* and bidirectional A* find a cheapest path of any graph",
     "For any state, action, hash, equality and explored set the user supplies, a search from a start to a goal succeeds exactly when the goal can be reached, and returns a walk of the graph from the given start to the goal whose actions and cost agree with it. "
     "The cost is the least there is whenever the heuristic is admissible (tree search), consistent (graph search) or a consistent pair (bidirectional search); a graph search expands no state twice, and none whose cost plus estimate exceeds that of the solution. "
     "The combined heuristic is the maximum of its parts and an adapted one the value of the original. This holds for every search of a history: after the graph, the heuristic or the planner's configuration changed, after a failed search left nothing behind, after a propagator, heuristic or allocation failed inside an earlier search, and when searches run inside the callbacks of others.",
     ["histories", "inputs", "fault_sequences"], "for every directed graph with non-negative costs, every admissible or consistent heuristic, every history of searches and every callback or allocation that fails",
     "The tests run four searches of one small grid with one heuristic each.",
     ["algo/a_star.h", "algo/bidirectional_a_star.h", "utils/frontier.h"],
     [("A* templates and heuristic combinators", S + "algo/a_star.h"), ("bidirectional A*", S + "algo/bidirectional_a_star.h"), ("open list", S + "utils/frontier.h")],
     ["status, states, actions and cost of a search; the states the propagator is asked about; the explored set"], "Seeded search over histories of graph changes and searches with failing callbacks and allocations; oracle: all shortest distances of the graph, computed independently.")
