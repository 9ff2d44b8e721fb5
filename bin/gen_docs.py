#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing the table below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "planner/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if f.startswith("interfaces/") else S + f for f in files], mech=mech, observe=observe, note=level_note, na=na))


H = ["histories", "inputs", "fault_sequences"]
prop("C01", "The occupancy grid is the union of the registered obstacles",
     "After every operation on an obstacle map, a cell is occupied exactly when the footprint of an obstacle that is currently registered covers it, every footprint traces the whole outline of its shape inside the map and nothing else, and an occupied cell names an obstacle that lies on it. "
     "Adding, removing and moving overlapping obstacles in any order, re-adding, removing absent ones, placing the map anywhere, and operations that fail half-way leave no ghost cell and lose no cell.",
     H, "for every map size, placement and resolution, every history of add/remove/move/update operations on overlapping shapes, and every point at which a shape callback or an allocation fails inside an operation",
     "No test touches the obstacle map directly; the Hybrid A* test builds one map once and never removes or moves an obstacle.",
     ["state_validator/obstacle_list_occupancy_map.cpp", "state_validator/occupancy_map.cpp", "state_validator/obstacle.cpp", "state_validator/occupancy_map.h"],
     [("obstacle registration and cell ownership", S + "state_validator/obstacle_list_occupancy_map.cpp"), ("outline rasterisation", S + "state_validator/obstacle.cpp"), ("world to cell conversion", S + "state_validator/occupancy_map.h")],
     ["occupancy queries of every cell after every operation"], "Seeded search over operation histories and fault points; oracle: set-of-footprints model plus geometric tracing of every outline.")
prop("C02", "Clearances agree with the obstacles after every update",
     "After a map update, the distance of every cell to its nearest obstacle is the true distance to the nearest occupied cell (within a fifth of a cell), is zero exactly on occupied cells, is larger than the map when there is no obstacle, and belongs to the obstacle cell reported as nearest. "
     "This holds through every history of additions, removals and moves since the map was created, however the changes are grouped into updates and whichever of them failed half-way.",
     H, "for every history of map changes, every grouping of changes into incremental updates and every failing operation",
     "The dynamic distance map is incremental: errors depend on the order of insertions and removals between updates, and no test ever updates a map twice.",
     ["state_validator/gvd.cpp", "state_validator/gvd.h", "state_validator/obstacle_list_occupancy_map.cpp"],
     [("raise and lower wave fronts of the dynamic distance map", S + "state_validator/gvd.cpp"), ("registration of occupied and freed cells", S + "state_validator/obstacle_list_occupancy_map.cpp")],
     ["distance and nearest-obstacle queries of every cell after every update"], "Seeded search over histories; oracle: brute-force distance transform of the occupied cells.")
prop("C03", "Voronoi diagram and cost field agree with the obstacles",
     "After an update, every Voronoi edge lies midway between obstacles, obstacles far enough apart are separated by an edge, the distance of every cell to its nearest edge is the true distance, and the path cost of a cell is the documented field of the two distances: within [0, 1], about 1 on obstacles, zero beyond the field's reach. "
     "Queries by position answer with the cell that contains the position and refuse positions outside the map. This holds through every history of map changes, whenever the diagram is attached and however the changes are grouped.",
     H, "for every history of map changes and updates, every moment the diagram is attached to the map, and every failing operation",
     "The only test that builds a Voronoi diagram builds it once on a static map and looks at none of its values.",
     ["state_validator/gvd.cpp", "state_validator/gvd.h", "state_validator/occupancy_map.h"],
     [("Voronoi edge bookkeeping while the distance map changes", S + "state_validator/gvd.cpp"), ("path cost map", S + "state_validator/gvd.cpp")],
     ["edge distance, nearest edge and path cost of every cell after every update, and position queries at cell centres and outside"], "Seeded search over histories; oracle: brute-force distances to the edge set, equidistance of edges and the cost formula.")
prop("C04", "Grid A* returns the cheapest collision-free path or reports failure",
     "A grid A* search reports success exactly when the goal can be reached, and then returns a connected path from start to goal over free cells that never squeezes between two diagonal obstacles, whose reported cost is the sum of its steps and equals the cheapest possible cost; otherwise it reports failure, no path and an infinite cost. "
     "This holds for every search on one planner object, whatever map changes, failures or aborted searches came before it.",
     H, "for every map, start, goal, admissible heuristic and edge cost, every sequence of searches on one planner object, and every point at which a search is aborted",
     "The tests search one fixed small map once per planner object.",
     ["algo/a_star.h", "algo/a_star_n2.cpp", "algo/a_star_n2.h", "utils/frontier.h", "utils/node.h", "algo/heuristics.h"],
     [("graph search and path extraction", S + "algo/a_star.h"), ("priority queue with decrease-key", S + "utils/frontier.h"), ("neighbour generation", S + "algo/a_star_n2.cpp")],
     ["status, path and cost after every search"], "Seeded search over maps, histories and abort points; oracle: independent Dijkstra search.")
prop("C05", "Bidirectional A* returns the cheapest collision-free path or fails",
     "A bidirectional grid search reports success exactly when the goal can be reached, and then returns one connected, collision-free path from start to goal whose reported cost is the sum of its steps and equals the cheapest possible cost; otherwise it reports failure, no path and an infinite cost. "
     "This holds wherever the two searches meet and for every search on one planner object, whatever came before it.",
     H, "for every map, start, goal, admissible heuristic pair and edge cost, every sequence of searches on one planner object, and every point at which a search is aborted",
     "The test searches one fixed small map once; where the frontiers meet and when it is safe to stop depends on the map and the costs.",
     ["algo/bidirectional_a_star.h", "algo/a_star.h", "algo/heuristics.h", "algo/a_star_n2.cpp"],
     [("meeting and termination rule", S + "algo/bidirectional_a_star.h"), ("average heuristic pair", S + "algo/heuristics.h")],
     ["status, path and cost after every search"], "Seeded search over maps, histories and abort points; oracle: independent Dijkstra search.")
prop("C06", "RRT paths use only motions accepted by the validator",
     "Every path returned by RRT starts at the start state, ends within the optimality tolerance of the goal and consists of motions that were accepted as collision-free, none longer than the step size; each extension starts at the tree state nearest to its sample. "
     "A search stops at its iteration and node limits (at most one beyond), fails only when they are exhausted and then returns no path, and finds the goal when nothing is in the way; a failed or aborted search does not influence later ones.",
     H, "for every stream of random samples, every obstacle layout and parameter choice, every sequence of searches on one planner and every point at which sampling, steering or validation fails",
     "The tests run RRT once on a free workspace from one random stream and only look at the end points.",
     ["algo/rrt.h", "utils/tree.h", "utils/node.h", "paths/path_r2.cpp"],
     [("tree growth and path extraction", S + "algo/rrt.h"), ("nearest neighbour and tree ownership", S + "utils/tree.h")],
     ["every sample, steering request and validation, and the returned path"], "Seeded search over sample streams and fault points; oracle: history of samples and accepted motions.")
prop("C07", "RRT* connects every state through its cheapest accepted neighbour",
     "Every path returned by RRT* starts at the start, ends at the goal and consists of motions accepted as collision-free. "
     "Its length is never more than what results from connecting each new state, on arrival, through the cheapest accepted motion from its nearest neighbours in the tree; a state that is reached again keeps its connection, and limits, failures and aborted searches behave as for RRT.",
     H, "for every stream of random samples, every obstacle layout and parameter choice, every sequence of searches on one planner and every point at which sampling, steering or validation fails",
     "The test runs RRT* once on a free workspace and only looks at the end points; errors in the choice of the parent need particular sample orders around obstacles.",
     ["algo/rrt_star.h", "utils/tree.h", "utils/node.h"],
     [("choice of the parent", S + "algo/rrt_star.h"), ("nearest neighbours and tree growth", S + "utils/tree.h")],
     ["every sample, steering request and validation, and the returned path"], "Seeded search over sample streams and fault points; oracle: executable reference model replaying the accepted motions.")
prop("C08", "Hybrid A* paths are drivable, collision-free and reach the goal",
     "Whenever a Hybrid A* search succeeds, its path starts at the start pose, ends at the goal pose, is continuous, never turns sharper than the minimum turning radius nor slides sideways, keeps the required clearance from obstacles and stays inside the map, and its reported cost is that of the driven path: its length weighted by direction, its changes of direction, and the Voronoi field along it. "
     "The sampled path contains the start, the goal and every change of direction at the configured spacing; when the direct manoeuvre to the goal is free the search succeeds, and every search terminates.",
     ["histories", "inputs", "configurations", "fault_sequences"], "for every workspace, start, goal, vehicle and search configuration, every random stream, every sequence of map changes and searches, and every point at which a search is aborted",
     "The tests run a few searches with fixed configuration and look at the end point and the number of states only.",
     ["algo/hybrid_a_star.cpp", "algo/hybrid_a_star.h", "algo/a_star.h", "algo/heuristics.cpp", "algo/smoother.cpp", "geometry/reeds_shepp.cpp", "paths/path_reeds_shepp.cpp", "paths/path_constant_steer.cpp", "paths/path_composite.cpp", "models/kinematic_bicycle_model.cpp"],
     [("motion expansion and Reeds-Shepp shots", S + "algo/hybrid_a_star.cpp"), ("sampling of the result", S + "algo/hybrid_a_star.cpp"), ("non-holonomic heuristic table", S + "algo/heuristics.cpp")],
     ["status, cost, sampled path and graph-search manoeuvres after every search"], "Seeded search over workspaces, histories and fault points; oracle: independent re-driving and re-measuring of the path.")
prop("C09", "Hybrid A* results do not depend on the history of the planner",
     "A Hybrid A* search gives bit for bit the result a newly created planner gives on the same obstacles with the same random stream, whatever obstacles were moved, added or removed and whatever searches succeeded, failed or were aborted before. "
     "After a failed or aborted search no path, manoeuvre, finite cost or success of an earlier search is returned.",
     H, "for every sequence of map changes and searches on one planner object and every point at which an earlier search is aborted",
     "The tests use one planner object for one search, so no state left behind by an earlier search can show.",
     ["algo/hybrid_a_star.cpp", "algo/hybrid_a_star.h", "algo/a_star.h", "algo/heuristics.cpp", "algo/path_planner.h", "state_validator/gvd.cpp"],
     [("state kept between searches", S + "algo/hybrid_a_star.h"), ("resetting of the graph search", S + "algo/a_star.h"), ("goal-dependent heuristic", S + "algo/heuristics.cpp")],
     ["status, cost, path and manoeuvres of the used planner and of a new one"], "Seeded search over histories and abort points; oracle: differential comparison with a new planner (refinement of the stateless planner).")
prop("C15", "Path validation accepts exactly the collision-free paths",
     "A path is accepted only if, up to the validator's granularity, its start, its end and everything in between lie inside the map with the required clearance, and a path that keeps the clearance everywhere is not refused; a state is judged by the same rule. "
     "For a refused path the reported valid part is itself collision-free and reaches up to the obstruction. This holds for every kind of path, every placement of the map and every history of map changes, including validations that failed half-way.",
     H, "for every path of every family, every map placement and clearance setting, every history of map changes and every failing path callback",
     "The validator is only exercised inside planner tests on maps whose frame coincides with the world frame.",
     ["state_validator/state_validator_occupancy_map.cpp", "state_validator/state_validator.h", "state_validator/occupancy_map.h", "paths/path_reeds_shepp.cpp", "paths/path_composite.cpp", "paths/path_constant_steer.cpp", "paths/path_se2.cpp"],
     [("clearance-driven stepping along the path", S + "state_validator/state_validator_occupancy_map.cpp")],
     ["verdict and last valid ratio of every validation"], "Seeded search over map histories and paths; oracle: dense brute-force clearance along the path.")
prop("C17", "The obstacle-aware cost-to-go is the cheapest grid cost",
     "After the goal is set, the estimate at every position in the map is the cheapest cost over free cells between its cell and the goal cell (less one cell diagonal) and never less than the straight-line distance, which is also the estimate where the goal cannot be reached and outside the map. "
     "This holds for every goal set on one heuristic object, whatever map changes and aborted computations came before.",
     H, "for every map and goal, every sequence of map changes and goals on one heuristic object and every point at which a computation is aborted",
     "No test evaluates the heuristic; inside Hybrid A* a wrong value only makes the search slower or the path longer.",
     ["algo/heuristics.cpp", "algo/heuristics.h", "utils/frontier.h"],
     [("Dijkstra wave from the goal", S + "algo/heuristics.cpp")],
     ["estimate at every cell and outside the map after every goal"], "Seeded search over maps, goals and abort points; oracle: independent Dijkstra search.")
EXTRA = os.path.join(V, "bin", "gen_docs_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
P.sort(key=lambda p: p["id"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]

man = dict(version=1, setup_cmd="python3 bin/check.py build C01", checks=[], not_applicable=[],
           notes="No hooks in /repo: every seam is an interface of the library, a compiler flag or a symbol replaced at link time. VERIF_SEED is the base seed of every run.")
for p in P:
    if p["na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        man["checks"].append(dict(property=p["id"], quick_cmd="python3 bin/check.py run %s --tier quick" % p["id"],
                                  thorough_cmd="python3 bin/check.py run %s --tier thorough" % p["id"],
                                  technique="deterministic simulation with fault injection: seeded search over histories and faults",
                                  level="exploration", level_note=p["note"]))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
