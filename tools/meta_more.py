UTL = "src/util/EllipsoidSQCollisionFCL.cpp"
prop("O01", "A sampling-based answer is valid, or there is none",
     "When a sampling-based planner (OMPL interface, 2D, 3D and articulated) reports a query solved, its path starts at the requested start and ends at the requested goal (brought inside the bounds and normalised), stays inside the bounds the caller "
     "gave at construction, and along it the robot does not overlap any obstacle by more than the motion resolution and mesh error allow; start and goal are collision-free. When the query is not solved, no path is handed out. The graph listed "
     "consists of as many vertices and edges as reported, edges join listed vertices, and every vertex the planner has checked is inside the bounds and free of collision.",
     ["schedules", "inputs", "fault_sequences"], "all planners, samplers, scenes and queries, including invalid ones and ones inside an obstacle, all random streams, all interleavings of the planner's own threads, all limits",
     SAMPLE + "random streams and interleavings; the demos print whatever path comes out.",
     [OI, O2, O3, OA, UTL], [("plan()", OI), ("isStateValid / isSeparated", OI + ", " + O2 + ", " + O3), ("getSolution", O2 + ", " + O3), ("isCollision", UTL)],
     ["path, interpolated path, vertices and edges against an independent separation computation"])
prop("O02", "Open queries are solved by every sampling-based planner",
     "A query whose straight motion from start to goal is amply clear of every obstacle, in a space most of which is free, is solved by each of the sampling-based planners with uniform sampling within a generous budget of work, with a path from that start to that goal.",
     ["schedules", "inputs"], "all planners, open scenes, random streams and interleavings of the planner's own threads",
     SAMPLE + "random streams, and none asserts that a path was found.",
     [OI, O2, O3, OA, UTL], [("plan()", OI), ("setPlanner, setValidStateSampler", OI), ("isSeparated", O2 + ", " + O3)], ["solved flag against an independent clearance computation"])
prop("O03", "Queries asked one after another of one sampling-based planner do not mix",
     "Each query put to the same sampling-based planner object is answered as if it were the first: its path leads from its own start to its own goal, an unsolvable query is unsolved and has no path even when an earlier one was solved, the graph listed "
     "holds no start or goal of an earlier query, and the planning time reported is its own.",
     ["histories", "schedules", "inputs"], "all sequences of up to four queries, solvable or not, with differing limits",
     SAMPLE + "sequences of queries on one object.",
     [OI, O2, O3], [("plan(): clear, reset results", OI), ("getSolution: replace vertices and edges", O2 + ", " + O3)], ["every answer of a sequence, with the checks of O01"])
prop("O04", "The sampling-based planners keep to their time limit",
     "A sampling-based planner returns within a bounded amount of work once its limit has passed, does not give up before the limit on a query whose start and goal are clear, reports a non-negative time no longer than really passed, and reports a query solved only if its reported "
     "planning time is within the limit.",
     ["schedules", "inputs", "fault_sequences"], "all limits including zero and negative ones, all costs of work, all planners, samplers and interleavings",
     SAMPLE + "how long a step takes; no test reaches the limit.",
     [OI, O2, O3], [("ss_->solve(maxTimeInSec), totalTime_ < maxTimeInSec", OI)], ["reported time and clock readings after the limit against the simulated clock"])
prop("F01", "What is read from files is what is in them, or reading fails",
     "Arena, obstacles, robot bodies, rotations, start and goal read from CSV files (also with remarks, blanks, exponents, CR-LF line ends, or without a final line end) equal the written numbers exactly, and planning with them gives exactly the roadmap and path of planning with the same objects built in memory. "
     "When opening or reading a file fails at any point, the reader raises an exception instead of returning part of the data; interrupted and short reads make no difference. No file is left open.",
     ["fault_sequences", "inputs"], "all tables, number formats and positions of open and read failures",
     SAMPLE + "contents and failing reads.",
     ["src/util/Parse2dCsvFile.cpp", "src/test/util/ParsePlanningSettings.cpp"], [("parse2DCsvFile", "src/util/Parse2dCsvFile.cpp"), ("loadVectorGeometry, loadRobotMultiBody2D/3D, loadPreDefinedQuaternions", "src/test/util/ParsePlanningSettings.cpp")],
     ["objects and plans from files against those from memory"])
prop("F02", "An unreadable robot description never turns into a wrong robot",
     "The poses of an articulated robot's bodies follow the kinematic chain of its URDF file. When the file cannot be opened, cannot be read completely or is torn at any of the moments a planner reads it, constructing or planning raises an exception or the result is exactly what it would have been; no roadmap or path is "
     "built with a partly read robot. Afterwards, with the file readable again, planning works. No file is left open.",
     ["fault_sequences", "inputs", "crash_points"], "all positions and kinds of open and read failures, torn files, base poses and joint angles, for ProbHRM3D, its ablation variant, the articulated OMPL planner and the kinematics alone",
     SAMPLE + "failing reads: the file is always there.",
     ["src/util/ParseURDF.cpp", "src/datastructure/MultiBodyTree3D.cpp", PR, OA], [("ParseURDF constructor throws", "src/util/ParseURDF.cpp"), ("robotTF re-reads the description per configuration", "src/datastructure/MultiBodyTree3D.cpp")],
     ["results and poses of faulted runs against clean ones and against an independent forward kinematics"])
prop("N01", "Interval sets: union, intersection, complement are exact set algebra",
     "Union, intersection and complement of lists of closed intervals denote exactly the corresponding sets of reals, for lists in any order, overlapping, touching or empty.",
     ["inputs"], "all lists of intervals", SAMPLE + "lists of intervals.", ["src/datastructure/Interval.cpp"], [("Interval::unions, intersects, complements", "src/datastructure/Interval.cpp")], skip=True)
prop("N02", "Closed-form Minkowski boundaries lie on the exact boundary",
     "Every sampled point of a closed-form Minkowski sum or difference of an ellipsoid and a superquadric lies on the exact boundary of that set.",
     ["inputs"], "all semi-axes, exponents and orientations", SAMPLE + "shapes.", ["src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp"], [("getMinkSum2D, getMinkSum3D", "src/geometry/SuperEllipse.cpp, src/geometry/SuperQuadrics.cpp")], skip=True)
prop("N03", "Demo programs store what they display",
     "The result files a demo writes hold the roadmap and path it prints.",
     ["inputs", "fault_sequences"], "all demo settings and disk faults", SAMPLE + "disk faults.", ["src/test/util/DisplayPlanningData.cpp"], [("storeGraphInfo, storePathInfo", "src/test/util/DisplayPlanningData.cpp")], skip=True)
