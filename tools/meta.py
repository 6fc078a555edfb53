#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks.json: edit here, run, commit."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CH = [], {}
HI = "include/hrm/planners/HighwayRoadMap-inl.h"
H2, H3, PR, AB = "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "include/hrm/planners/HRM3DAblation-inl.h"
KC, F2, F3 = "src/planners/HRM2DKC.cpp", "src/datastructure/FreeSpace2D.cpp", "src/datastructure/FreeSpace3D.cpp"
OI, O2, O3, OA = "include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp", "src/planners/ompl_interface/OMPL3DArticulated.cpp"
SAMPLE = ("The existing tests plan a handful of fixed maps once each on an unfaulted machine and look only at whether plan() returned; "
          "none of them quantifies over ")

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), **cfg):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)
    CH[id] = cfg

ROAD = "numbers of orientations, sweep lines, obstacles and robot bodies"

prop("T01", "Planning stops at the time limit and does not give up before it",
     "A planning request that has found no path keeps working until its time limit has passed, and returns unsolved only then. Once the limit has passed it finishes at most the "
     "slice (and the search following it) that it was working on and returns: it adds vertices at no more than one further orientation. This holds however slowly or unevenly the "
     "machine runs, for zero and negative limits too, and for every highway-roadmap planner.",
     ["schedules", "inputs", "fault_sequences"],
     "all time limits, all costs of every stretch of work (steady, proportional to work done, one stalled step), all scenes and all five planners",
     SAMPLE + "how long a step takes: a test on a real clock sees one timing, and a limit is hardly ever reached.",
     [HI, H2, H3, PR], [("plan(): while (!solved && totalTime < timeLim)", HI), ("refineExistRoadmap: limit checked per slice", HI), ("ProbHRM3D::plan do-while", PR)],
     ["clock readings, roadmap size at each reading"],
     [("planningTime.totalTime", "time accounted so far, compared with the limit", HI)])
prop("T02", "Reported planning times are the time that passed",
     "The total time a highway-roadmap planner reports equals the time that really passed on the monotonic clock from the start to the end of its last search, and is the sum of the "
     "reported build and search times. Time during which vertices or edges are added is reported as build time, time spent searching the roadmap is reported as search time, and neither is counted "
     "twice or left out.",
     ["schedules", "inputs", "fault_sequences"],
     "all costs of every stretch of work, numbers of refinement rounds and slices, coarse and fine clocks",
     SAMPLE + "the duration of each phase; the sums are only printed.",
     [HI, PR], [("buildTime/searchTime accumulation in plan() and refineExistRoadmap()", HI), ("ProbHRM3D::plan", PR)],
     ["planningTime against the simulated clock"])
prop("T03", "Stepping the wall clock changes neither result nor reported times",
     "Steps of the system's wall clock, forwards or backwards, of any size and at any moment during planning, change nothing: the highway-roadmap planner builds the same roadmap, returns the same "
     "path, spends its time limit the same way and reports the same times as when the wall clock runs evenly.",
     ["schedules", "fault_sequences"], "every number, size, direction and position of wall-clock steps while a request is being planned",
     SAMPLE + "clock adjustments; a real test cannot step the clock.",
     ["include/hrm/planners/PlanningRequest.h", HI, PR], [("one monotonic clock type for all planner timing", "include/hrm/planners/HighwayRoadMap.h")],
     ["results of two runs of one scenario, one with wall-clock steps"])
prop("R01", "The roadmap only grows, and its shape follows the request",
     "While a request is planned the roadmap only grows: vertices, edges and weights once present stay as they are, every edge joins two existing distinct vertices and its weight is its length. Every vertex lies on a sweep line "
     "of the requested grid or of one obtained from it by repeated doubling, at an orientation the request implies (evenly spaced headings, the given rotations, start and goal of the sampling planner). Refinement adds, "
     "and joins what it adds at an orientation to what was already there at that orientation when an unobstructed link between neighbouring sweep lines exists.",
     ["inputs", "histories", "schedules"], "all scenes, " + ROAD + ", and all points at which the time limit interrupts refinement",
     SAMPLE + ROAD + "; no test looks at the roadmap during planning.",
     [HI, H2, H3, PR], [("refineExistRoadmap", HI), ("connectExistSlice", H2 + ", " + H3), ("sampleOrientations", H2 + ", " + H3)],
     ["graph at every clock reading"], [("graphStructure", "vertices, edges, weights", "include/hrm/planners/PlanningResult.h")])
prop("C01", "Every roadmap vertex is inside the limits and free of collision",
     "Every vertex of a highway roadmap, including those added by refinement and as intermediate vertices, lies inside the requested planning limits, and with the robot placed there no body of the robot overlaps an obstacle by more than the error of "
     "the polygonal boundary the caller's number of boundary points implies. Where the sweep line of the vertex runs through a bounded arena, the robot placed at the vertex also stays inside that arena with all its bodies, within the same error.",
     ["inputs", "histories", "configurations"], "all scenes with elliptic robot bodies, super-elliptic and superquadric obstacles, all planners, refinement levels and interruption points",
     SAMPLE + "scenes; no test checks a vertex against an obstacle.",
     [F2, F3, H2, H3, PR, KC], [("Minkowski boundaries", "src/geometry/SuperEllipse.cpp, src/geometry/SuperQuadrics.cpp"), ("sweep-line intersection and complement", F2 + ", " + F3), ("slice transform", H2 + ", " + H3)],
     ["vertices against exact separations of the shapes"])
prop("C02", "Every roadmap edge is free of collision",
     "Moving along an edge between two vertices of one orientation, the robot overlaps no obstacle by more than the boundary discretisation error. Along an edge between different orientations the same holds at each of the requested interpolation steps.",
     ["inputs", "histories", "configurations"], "all scenes, orientations, interpolation counts, planners with checked transitions, refinement levels and interruption points",
     SAMPLE + "scenes; no test checks an edge.",
     [H2, H3, AB, F2, F3, "src/geometry/TightFitEllipsoid.cpp", "src/geometry/LineIntersection.cpp"],
     [("isSameSliceTransitionFree", H2 + ", " + H3), ("isMultiSliceTransitionFree and bridge C-slice", H2 + ", " + H3), ("enclosing ellipsoid of two or more rotations", "src/geometry/TightFitEllipsoid.cpp")],
     ["edges against exact separations of the shapes"])
prop("C03", "Every free stretch of every sweep line gets a vertex in its middle",
     "At every orientation of the roadmap, on every sweep line of the requested grid (and of each refined grid completed at that orientation) every maximal stretch inside the planning limits (and inside every arena the line runs through) on which the robot touches no obstacle has a roadmap vertex at its middle, up to the boundary "
     "discretisation error.",
     ["inputs", "histories", "configurations"], "all scenes, including sweep lines a bounded arena cuts short, all planners, orientations and refinement levels",
     SAMPLE + "scenes; lost free space only makes a plan fail, which tests accept.",
     [F2, F3, H2, H3, "src/datastructure/Interval.cpp"], [("computeFreeSegment / interval complement", F2 + ", " + F3), ("generateVertices", H2 + ", " + H3)],
     ["vertices against exactly computed free stretches"])
prop("C04", "Vertices of neighbouring sweep lines are linked whenever the link is free",
     "Within one orientation of a freshly built slice, vertices on neighbouring sweep lines are connected by an edge when the straight link between them stays clear of all obstacles, and the vertices on one free stretch are chained. In 3D, where the straight link is blocked but one of the two "
     "detours that first change height along one line and then cross, or first cross and then change height, is clear, they are connected through a vertex at its corner. No free link of that kind is dropped because of its position on the grid.",
     ["inputs", "configurations", "histories"], "all scenes, numbers of sweep lines and orientations; links with clearance beyond the discretisation error",
     SAMPLE + "scenes and grids; a missing link only makes a plan fail or longer.",
     [H2, H3], [("connectOneSlice", H2), ("connectOneSlice3D, bridgeVertex", H3)], ["edges between grid neighbours against exact clearance of the link"])
prop("C05", "Neighbouring orientations are joined wherever a clear transition exists",
     "When at a free place the robot can be turned from one orientation of the roadmap to its neighbouring orientation with clear space around it (for the whole swept enclosing shape), the roadmap connects the two orientations by at least one edge. The neighbours are the next heading in the plane, the closest of the other rotations in space, and for the sampling planner of articulated robots the closest earlier slice by rotation and joint angles, the sign of a quaternion not counting.",
     ["inputs", "configurations"], "all scenes, orientations and numbers of slices with a witness transition of sufficient clearance",
     SAMPLE + "scenes; roadmaps whose slices are not joined only make plans fail.",
     [H2, H3, PR, "src/geometry/TightFitEllipsoid.cpp"], [("connectMultiSlice", H2 + ", " + H3 + ", " + PR)], ["edges between orientations against a clear witness"])
prop("S01", "A reported path is a shortest walk on the roadmap at its reported cost",
     "When a plan is reported solved, its path is a sequence of roadmap vertices without repetition, each joined to the next by a roadmap edge; the reported cost is the sum of the weights of those edges, and no path on the roadmap between its first and last vertex is shorter. When it is reported unsolved, no path is handed out.",
     ["inputs", "histories", "configurations"], "all scenes, planners, refinement rounds and interruption points",
     SAMPLE + "scenes, nor compares the cost with the roadmap.",
     [HI], [("A* search and predecessor walk", HI)], ["solution path against an independent shortest-path search on the roadmap"])
prop("S02", "A plan is solved exactly when start and goal neighbourhoods are connected",
     "A request is reported solved if and only if some roadmap vertex near the start is connected by edges to some roadmap vertex near the goal, and the path starts and ends at such vertices. Near means: among the requested number of orientations within the search radius of the closest one, the vertex closest to the query at that orientation, not further away "
     "than the search radius times the average spacing of sweep lines.",
     ["inputs", "histories", "configurations"], "all scenes, queries, neighbour counts and radii without ties; 2D, 3D and sampling planners",
     SAMPLE + "queries; both outcomes are accepted by the tests.",
     [HI, H2, H3], [("getNearestNeighborsOnGraph", H2 + ", " + H3), ("search over all pairs of neighbours", HI)], ["solved flag and path ends against an independent neighbourhood and connectivity computation"])
prop("P01", "The path handed out leads from the asked start to the asked goal",
     "A reported path starts exactly at the requested start and ends exactly at the requested goal, and its poses in between are those of the path's roadmap vertices. The interpolated path of the 3D planners passes through all of them in order, with straight translation and joints and shortest even rotation in between, its steps shared out in proportion to the length of each leg; in 2D it equals the path.",
     ["inputs", "configurations", "histories"], "all scenes, queries, planners and interpolation counts, including paths of one roadmap vertex and legs of zero length",
     SAMPLE + "queries, nor looks at the poses.",
     [HI, H3, "src/util/InterpolateSE3.cpp"], [("getSolutionPath", HI), ("getInterpolatedSolutionPath", H3)], ["poses of the result against the request and the roadmap"])
prop("B01", "The sampling planner starts with start and goal and adds one slice at a time",
     "The sampling planner for articulated robots builds its first slice at the start's rotation and joint angles and its second at the goal's; every later slice has a unit rotation and joint angles within a quarter turn. Each iteration adds vertices at one orientation only, the number of iterations it reports is the number of orientations it tried, and it never returns to an earlier orientation except when it refines.",
     ["inputs", "schedules", "fault_sequences"], "all random streams (including extreme draws), scenes, joints and numbers of iterations",
     SAMPLE + "random streams: each test sees one.",
     [PR], [("sampleOrientations", PR), ("plan() loop", PR)], ["orientation of the vertices added between clock readings"])
prop("D01", "The same request gives the same result, whatever ran before",
     "Planning the same request again in the same process, with the same random stream and timing, gives the same roadmap, path, cost and reported times, whatever was planned before, whatever the memory handed out contains, and whether or not the caller reuses the same robot and obstacle objects.",
     ["histories", "inputs", "fault_sequences"], "all pairs of requests, memory contents and earlier histories",
     SAMPLE + "memory contents and histories: dependence on uninitialised or leftover state passes silently.",
     [HI, H2, H3, PR, KC], [("all planner state is per object and initialised", HI), ("one seeding of the random stream per request", PR)], ["results of repeated runs"])
prop("D02", "Planners used by several threads do not disturb each other",
     "Separate planner objects used at the same time by separate threads, also on equal requests sharing the caller's robot and obstacle objects, each give exactly the roadmap, path and reported times they give alone.",
     ["schedules", "inputs"], "all interleavings at clock readings and memory allocations of two or three callers of deterministic planners",
     SAMPLE + "interleavings: no test uses a second thread.",
     [HI, H2, H3, KC], [("no shared mutable state between planner objects", HI)], ["results of interleaved runs against solo runs"])
prop("A01", "Running out of memory never turns into a wrong result",
     "When memory allocations fail at any point of building the inputs or of planning, the failure reaches the caller as an exception or leaves the result exactly as it would have been; the process does not crash or hang. Afterwards the same request with enough memory gives the normal result.",
     ["fault_sequences", "inputs", "crash_points"], "every position and length of a run of failing allocations, all planners",
     SAMPLE + "failing allocations.",
     [HI, H2, H3, PR, KC], [("exceptions pass through, objects are destroyed cleanly", HI)], ["outcome of a run with failing allocations and of a clean run after it"])

exec(open(os.path.join(V, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_more.py")) else None

TECH = "deterministic simulation with fault injection: seeded search over schedules, timings, inputs and faults of the real code behind simulated clock, random, memory, file and thread seams"
NOTE = "Seeded search, not exhaustive: what is checked per simulated run is written in DESIGN.md."
NA = []
exec(open(os.path.join(V, "tools", "meta_na.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_na.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
json.dump({"version": 1, "setup_cmd": "make -s -j8",
           "checks": [{"property": d["id"], "quick_cmd": "python3 check.py --prop %s --tier quick" % d["id"], "thorough_cmd": "python3 check.py --prop %s --tier thorough" % d["id"],
                       "technique": TECH, "level": "exploration", "level_note": CH[d["id"]].get("note", NOTE)} for d in P if not CH[d["id"]].get("skip")],
           "not_applicable": NA}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({k: {a: b for a, b in v.items() if a in ("quick_s", "thorough_s", "rule", "assumptions")} for k, v in CH.items()}, open(os.path.join(V, "checks.json"), "w"), indent=1)
