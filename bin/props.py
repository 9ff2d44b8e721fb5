"""What each property is built from, how much is explored, and what the evidence says about it."""
MAPSRC = [r"state_validator/(gvd|obstacle|obstacle_list_occupancy_map|occupancy_map)\.cpp", r"utils/.*", r"geometry/2dplane.*"]
STD_ASSUME = [
    "single-fault model per operation: at most one allocation failure per library call",
    "the C++ standard library, Eigen, FLANN and the compiler are trusted",
]
PROPS = {
    "C01": dict(
        variant="seq", modules=["c01.cpp"], sources=MAPSRC, quick=(20000, 60), thorough=(1500000, 1500),
        rule="A run is a seeded history of add/remove/move/update operations on overlapping obstacles with failing shape callbacks and failing allocations inside the operations; non-trivial when at least one obstacle was registered, distinct by event-log hash.",
        state_measure="distinct sets of occupied cells after an operation",
        real=["obstacle map", "shapes and rasterisation", "distance map"], stub=["shape callback wrapper that can throw", "allocator that can fail"],
        assumptions=STD_ASSUME),
}
GRIDSRC = MAPSRC + [r"algo/a_star_n2\.cpp"]
PROPS["C04"] = dict(
    variant="seq", modules=["c04.cpp"], sources=GRIDSRC, quick=(12000, 60), thorough=(1000000, 1500),
    rule="A run is a seeded history of map changes and searches on one planner object, with searches aborted at a random point by a failing cost function, heuristic, occupancy query or allocation; non-trivial when a path of more than three cells was found, distinct by event-log hash.",
    state_measure="distinct (occupied cells, start, goal) triples searched",
    real=["grid A*", "frontier", "node tree", "grid propagator", "heuristic combinators", "obstacle map"], stub=["cost, heuristic and occupancy callbacks that can throw", "allocator that can fail"],
    assumptions=STD_ASSUME + ["edge costs are symmetric and at least the Euclidean length, heuristics are consistent (the documented requirement)"])
PROPS["C05"] = dict(PROPS["C04"], modules=["c05.cpp"],
    real=["bidirectional A*", "average heuristic pair", "frontier", "node tree", "grid propagator", "obstacle map"],
    assumptions=PROPS["C04"]["assumptions"] + ["the goal cell is free (the reverse search leaves the goal cell with the same propagator)"])
PROPS["C02"] = dict(
    variant="seq", modules=["c02.cpp"], sources=MAPSRC, quick=(12000, 60), thorough=(1000000, 1500),
    rule="A run is a seeded history of add/remove/move/update operations with failing shapes and allocations inside the operations; after every update each cell is compared with a brute-force distance transform; non-trivial when an update was checked with at least one occupied cell, distinct by event-log hash.",
    state_measure="distinct clearance fields after an update",
    real=["obstacle map", "shapes and rasterisation", "dynamic distance map", "Voronoi map attached to it"], stub=["shape callback wrapper that can throw", "allocator that can fail inside add"],
    assumptions=STD_ASSUME + ["the wave-front distance computation may be off by a fifth of a cell (measured worst: 0.04 cell)"])
PROPS["C03"] = dict(
    variant="seq", modules=["c03.cpp"], sources=MAPSRC, quick=(8000, 60), thorough=(800000, 1500),
    rule="A run is a seeded history of add/remove/move/update operations with failing shapes and allocations, the Voronoi diagram attached before a random operation; after every update each cell is compared with brute-force distances to the edge set and with the cost-field formula; non-trivial when a diagram with edges was checked, distinct by event-log hash.",
    state_measure="distinct Voronoi and cost fields after an update",
    real=["Voronoi map", "cost field", "dynamic distance map", "obstacle map"], stub=["shape callback wrapper that can throw", "allocator that can fail inside add"],
    assumptions=STD_ASSUME + ["the edge set itself is judged by equidistance (within 1.5 cells, up to three cells of a snapshot excepted), since which discrete cells carry the edge depends on the order of updates"])
PROPS["C17"] = dict(
    variant="seq", modules=["c17.cpp"], sources=MAPSRC + [r"algo/heuristics\.cpp", r"geometry/.*"], quick=(12000, 60), thorough=(1000000, 1500),
    rule="A run is a seeded history of map changes and goals on one heuristic object, with computations aborted by a failing occupancy query or allocation; every cell's estimate is compared with an independent Dijkstra search; non-trivial when more than three cells need a detour, distinct by event-log hash.",
    state_measure="distinct cost-to-go fields",
    real=["obstacle heuristic", "frontier", "obstacle map"], stub=["occupancy query that can throw and adds a random maze", "allocator that can fail"],
    assumptions=STD_ASSUME + ["cost multipliers of at least 1"])
PROPS["C06"] = dict(
    variant="seq", modules=["c06.cpp"], sources=[r"paths/path_r2\.cpp", r"geometry/2dplane.*"], quick=(24000, 60), thorough=(2000000, 1500),
    rule="A run is a seeded history of obstacle changes, parameter changes and searches on one planner object; the simulator supplies every sample, motion and validity answer and can make any of them fail; non-trivial when a path of more than three states was found, distinct by event-log hash.",
    state_measure="distinct (tree, path) outcomes of a search",
    real=["RRT", "search tree", "node ownership", "straight-line paths", "FLANN nearest-neighbour index"], stub=["state space (samples)", "path connection wrapper", "state validator", "random engine"],
    assumptions=STD_ASSUME + ["iteration and node limits may be exceeded by one", "the validator answers a given motion the same way within one search", "allocations do not fail inside a search (FLANN is not exception-safe)"])
PROPS["C07"] = dict(PROPS["C06"], modules=["c07.cpp"],
    real=["RRT*", "search tree", "node ownership", "straight-line paths", "FLANN nearest-neighbour index"],
    assumptions=PROPS["C06"]["assumptions"] + ["the cost clause is not judged in searches where several states tie for the last neighbour rank"])

HYBSRC = [r"(?!algo/a_star_n2|debug).*"]
PROPS["C08"] = dict(
    variant="seq", modules=["c08.cpp"], sources=HYBSRC, quick=(4000, 60), thorough=(200000, 1500),
    rule="A run is a seeded workspace with a history of obstacle changes and searches on one Hybrid A* planner, with validations, occupancy queries and allocations failing inside searches and an adversarial random stream; every returned path is re-driven and re-measured independently; non-trivial when a path of more than two manoeuvres was checked, distinct by event-log hash.",
    state_measure="distinct search outcomes (path, manoeuvres, cost)",
    real=["Hybrid A*", "graph search", "Reeds-Shepp solver and paths", "bicycle model", "heuristics", "Voronoi field", "smoother", "occupancy-map validator", "obstacle map"], stub=["wrapper that makes a validation or occupancy query throw", "allocator that can fail", "random engine"],
    assumptions=STD_ASSUME + ["clearance is judged up to the validator's granularity (its minimal interpolation distance plus 1.7 cells)", "the map was updated after its last change", "cost multipliers of at least 1", "allocations do not fail inside the distance-map update"])
PROPS["C09"] = dict(PROPS["C08"], modules=["c09.cpp"], quick=(2000, 60),
    rule="A run is a seeded history of obstacle changes and searches on one Hybrid A* planner, some aborted half-way; after each completed search the same search is repeated by a new planner on the same workspace and random stream and the results must agree bit for bit; non-trivial when a path of several manoeuvres was compared, distinct by event-log hash.",
    assumptions=STD_ASSUME + ["the Voronoi terms are switched off in the comparison: which discrete cells carry a Voronoi edge depends on the order of map updates", "allocations do not fail inside the distance-map update"])
PROPS["C15"] = dict(
    variant="seq", modules=["c15.cpp"], sources=MAPSRC + [r"state_validator/state_validator_occupancy_map\.cpp", r"state_space/.*", r"paths/.*", r"geometry/.*", r"models/.*"], quick=(16000, 60), thorough=(800000, 1500),
    rule="A run is a seeded history of add/remove/move operations with injected failures, interleaved with validations of straight, Reeds-Shepp, constant-steer and composite paths on an arbitrarily placed map; every verdict and reported prefix is compared with a dense brute-force evaluation; non-trivial when a path of positive length was judged among obstacles, distinct by event-log hash.",
    state_measure="distinct (verdict, prefix, worst clearance) outcomes",
    real=["occupancy-map validator", "distance map", "obstacle map", "all path families"], stub=["path wrapper whose interpolation can throw", "shape callback wrapper that can throw", "allocator that can fail inside add"],
    assumptions=STD_ASSUME + ["between the positions it looks at, the validator is judged up to its granularity (minimal interpolation distance plus 1.7 cells)", "distances within a fifth of a cell of the required clearance may be judged either way (see C02)", "the map was updated after its last change"])

PROPS["C10"] = dict(
    variant="seq", modules=["c10.cpp"], sources=[r"state_space/.*", r"geometry/2dplane.*"], quick=(20000, 60), thorough=(2000000, 1500),
    rule="A run is a seeded history of state spaces being created and sampled, singly and in batches, with the entropy source or an allocation failing inside an operation and single draws replaced by extreme values; non-trivial when at least two samples were judged, distinct by event-log hash.",
    state_measure="distinct sample sets",
    real=["state spaces R2 and SE2", "random generator wrapper", "standard distributions"], stub=["random engine", "random device", "allocator that can fail"],
    assumptions=STD_ASSUME + ["distribution clauses are judged at 7 standard deviations from streams without replaced draws"])
PROPS["C16"] = dict(
    variant="seq", modules=["c16.cpp"], sources=[r"paths/.*", r"geometry/.*", r"models/.*"], quick=(16000, 60), thorough=(1500000, 1500),
    rule="A run is a seeded history of appending parts to a path and truncating it, with allocations failing inside appends and truncations placed next to the boundaries of parts; after every operation the path is compared, state by state, with untouched copies of its parts; non-trivial when a truncated path of positive length was judged, distinct by event-log hash.",
    state_measure="distinct sampled path geometries",
    real=["composite, Reeds-Shepp, constant-steer, SE2 and R2 paths", "bicycle model", "Reeds-Shepp solver"], stub=["allocator that can fail"],
    assumptions=STD_ASSUME + ["a composite owns its parts (truncating it truncates the part objects themselves)"])
PROPS["C12"] = dict(
    variant="prof", modules=["c12.cpp"], sources=MAPSRC + [r"debug/.*"], quick=(30000, 60), thorough=(2000000, 1500),
    rule="A run is a seeded history of profiler sessions, nested profiled scopes (ended normally, stopped by hand or left by an exception) and profiled map updates on a simulated disk and clock, with failed opens, short, interrupted and failed writes, a disk that fills up, failed closes and failed allocations; the bytes on the disk are read back after every operation as if the process had died there; non-trivial when more than three events were checked, distinct by event-log hash.",
    state_measure="distinct traces on the disk after an operation",
    real=["profiler", "profiling timer and macros", "singleton", "std::ofstream above the simulated disk", "map update"], stub=["disk (fopen, write, writev, lseek, close)", "clocks", "allocator that can fail"],
    assumptions=STD_ASSUME + ["after a failed write only the events recorded before it are promised", "bytes handed to the operating system survive the death of the process (no power loss)", "names without backslashes and control characters"])
PROPS["C13"] = dict(
    variant="prof", modules=["c13.cpp"], sources=[r"debug/.*"], quick=(30000, 60), thorough=(2000000, 1500),
    rule="A run is a seeded history of timers and profiled scopes being started, restarted, read and ended on a simulated monotone clock, while the wall clock jumps; non-trivial when a positive interval was read, distinct by event-log hash.",
    state_measure="distinct readings",
    real=["timer", "profiling timer", "profiler"], stub=["both clocks", "disk"],
    assumptions=STD_ASSUME + ["single-precision readings are judged within 1e-5 of the interval"])
PROPS["C14"] = dict(
    variant="disk", modules=["c14.cpp"], sources=MAPSRC + [r"algo/heuristics\.cpp", r"geometry/.*"], quick=(10000, 60), thorough=(800000, 1500),
    rule="A run is a seeded history of map changes, updates and goals interleaved with exports of the Voronoi field and the cost-to-go as images onto a simulated disk, with failed opens, short, interrupted and failed writes, a disk that fills up and failed closes; every file is read back pixel by pixel; non-trivial when an image with at least three shades was checked, distinct by event-log hash.",
    state_measure="distinct images",
    real=["image export of both fields", "Voronoi map", "obstacle heuristic", "obstacle map", "stdio above the simulated disk"], stub=["disk (fopen, write, close)"],
    assumptions=STD_ASSUME + ["the file format is binary PPM with one pixel per cell"])
PROPS["C11"] = dict(
    variant="thrprof", modules=["c11_sut.cpp"], sources=None, quick=(3000, 60), thorough=(300000, 1500),
    rule="A run is two or three threads, each with a seeded script (RRT, RRT*, grid A*, bidirectional A*, map updates, paths, sampling, validation on a shared map, Hybrid A*), interleaved at memory accesses and synchronisation operations as the plan's switch entries say, with callbacks failing inside searches; non-trivial when at least one preemption happened among at least two jobs, distinct by event-log hash.",
    state_measure="distinct interleavings: hash of the sequence of (thread, next thread, code position, kind of point) at which threads were switched or blocked",
    real=["all planners", "maps and Voronoi diagram", "validators", "paths", "state spaces and random generator", "profiler", "mutexes as specified by POSIX"], stub=["thread scheduler", "mutex and one-time initialisation primitives", "random engines (one stream per thread)", "clocks", "disk"],
    assumptions=["sequentially consistent memory: weaker orders are covered only through the happens-before detector", "accesses made inside the C++ library's compiled parts and FLANN's shared library are not observed", "the profiler is initialised before the threads start (PP_INIT)", "a map shared by threads is not changed while they use it"])
PROPS["C18"] = dict(
    variant="thr", modules=["c18_sut.cpp"], sources=[r"utils/grid\.cpp"], quick=(30000, 60), thorough=(3000000, 1500),
    rule="A run is a history of phases in which two or three threads ask for (or release) a thread-safe singleton, interleaved at memory accesses and lock operations as the plan's switch entries say, with constructors that fail, and of single-threaded uses of the other two singleton templates; non-trivial when threads were preempted in a phase of at least two operations, distinct by event-log hash.",
    state_measure="distinct interleavings: hash of the sequence of (thread, next thread, code position, kind of point) at which threads were switched or blocked",
    real=["Singleton", "SingletonInit", "SingletonThreadSafe"], stub=["thread scheduler", "mutex primitives", "the constructed class (a harness class with failing constructors)"],
    assumptions=["sequentially consistent memory: weaker orders are covered only through the happens-before detector", "nobody uses an instance while it is released", "SingletonInit::Init is called once per lifetime"])
PROPS["C19"] = dict(
    variant="seq", modules=["c19.cpp"], sources=MAPSRC + [r"algo/smoother\.cpp", r"state_validator/state_validator_occupancy_map\.cpp", r"state_space/.*", r"paths/.*", r"geometry/.*", r"models/.*"], quick=(9000, 60), thorough=(800000, 1500),
    rule="A run is a history of smoothing requests, parameter changes, re-initialisations and map changes on one smoother, with validity checks and allocations failing inside requests; non-trivial when a smoothed path moved and was compared with the reference model, distinct by event-log hash.",
    state_measure="distinct smoothing results: hash of status and states",
    real=["Smoother", "StateValidatorOccupancyMap", "obstacle map, distance map, Voronoi diagram", "PathReedsShepp"], stub=["state validity callback may throw before delegating", "allocator"],
    assumptions=["the reference model abstains near discontinuities of the terms (cell borders, thresholds, straight or folded corners) and for curvature after five iterations"])
PROPS["C21"] = dict(
    variant="seq", modules=["c21.cpp"], sources=MAPSRC + [r"algo/heuristics\.cpp", r"paths/.*", r"geometry/.*", r"models/.*"], quick=(12000, 45), thorough=(1500000, 1500),
    rule="A run is a seeded drive of a simulated car (turns at or above the minimum turning radius and straight motions in both directions, with jumps and marks); connections from the last mark to the car, estimates of the cost to it and bicycle-model motions are requested along the way, with allocations failing inside requests; non-trivial when a connection of positive length was judged, distinct by event-log hash.",
    state_measure="distinct drives: hash of the connections, costs and estimates so far",
    real=["Reeds-Shepp solver and paths", "Reeds-Shepp connection", "non-holonomic cost-to-go table", "bicycle model and constant-steer paths"], stub=["the car that drives (reference)", "allocator that can fail"],
    assumptions=["a cost may or may not count a change of direction around a motion of no length", "an entry of the table may be attributed to either side of a pose where the cheapest kind of path changes"])
PROPS["C20"] = dict(
    variant="seq", modules=["c20.cpp"], bindings=["interfaces/python/src/pyplanning.cpp"], sources=None, quick=(3600, 45), thorough=(800000, 1500),
    rule="A run is a seeded history of calls through the Python module inside an embedded interpreter (maps, obstacles, Voronoi diagrams, validators, paths, state spaces, grid searches with Python callbacks and Python-defined maps and heuristics, Hybrid A*), in which references are dropped and garbage is collected between calls and inside callbacks, and callbacks raise or return something unusable; non-trivial when a search with Python callbacks completed and agreed with the native one, distinct by event-log hash.",
    state_measure="distinct observations of an operation",
    real=["Python module (bindings)", "CPython interpreter", "grid A*, bidirectional A*, Hybrid A*", "maps, obstacles, Voronoi diagram, validators, paths, state spaces"], stub=["the Python program (generated)", "callbacks that raise", "random engine", "time of garbage collection"],
    assumptions=["the interpreter and pybind11 are correct; allocations do not fail inside them", "what the engine computes natively is judged by the other properties", "Python-defined heuristics that are combined into an average pair are kept by the program", "observations that depend on the order of obstacles sharing cells are not compared"])
PROPS["C22"] = dict(
    variant="seq", modules=["c22_sut.cpp"], sources=[r"utils/grid\.cpp", r"geometry/2dplane.*"], quick=(15000, 40), thorough=(3000000, 1500),
    rule="A run is a seeded history of operations on an open list (few or many elements, few or many equal priorities, colliding hashes), on a search tree (extensions, nearest-neighbour queries, changes of parent, restarts) or on nodes (hanging, cutting, replacing and moving whole branches), with comparisons and allocations failing inside operations; after every operation the whole container is compared with its model; non-trivial when elements were removed, neighbours found or branches moved among several, distinct by event-log hash.",
    state_measure="distinct contents of the list, shapes of the tree or of the forest",
    real=["Frontier", "Tree", "Node", "FLANN k-d tree"], stub=["comparison that can throw", "allocator that can fail"],
    assumptions=["the order of elements with equal priority is not specified", "after a failed operation the container is emptied before it is used again, as the planners do", "allocations do not fail while FLANN builds its index (the library does not survive it)", "a node is not made its own parent; nodes of a Tree are moved only through the Tree"])

PROPS["C23"] = dict(
    variant="seq", modules=["c23_sut.cpp"], sources=[r"utils/grid\.cpp"], quick=(30000, 40), thorough=(3000000, 1500),
    rule="A run is a seeded history of searches by five planners (A* with a set, a map and no explored set, bidirectional A* with and without one) that share propagators and heuristics, on a directed graph with parallel and free edges, loops and unreachable parts, which changes between the searches, with colliding hashes, equal states that differ, other searches inside callbacks, and propagators, heuristics and allocations failing inside searches; non-trivial when a path of at least two steps was compared with the reference, distinct by event-log hash.",
    state_measure="distinct searches: hash of the path, its cost and the sequence of expanded states",
    real=["AStar", "BidirectionalAStar", "heuristic combinators", "explored sets", "Frontier", "Node"], stub=["graph and propagators", "estimates", "allocator that can fail"],
    assumptions=["costs are multiples of 1/4, so that sums are exact", "tree searches are run where they end: costs of at least 2, and no cycle unless there is a solution", "the bidirectional search is given consistent pairs of heuristics, as its documentation demands", "which of several cheapest paths is found is not specified"])

# runs of the quick tier where there is time for more than the figures above (about half a minute each)
for _k, _n in dict(C01=45000, C02=28000, C03=24000, C04=45000, C05=45000, C06=32000, C10=50000, C11=6000, C12=50000, C13=60000, C16=45000, C17=40000, C18=90000, C21=28000, C22=32000).items():
    PROPS[_k] = dict(PROPS[_k], quick=(_n, PROPS[_k]["quick"][1]))
