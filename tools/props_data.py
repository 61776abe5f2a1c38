REF = "Exhaustive within the stated bounds on the real code; trusts the reference model in the harness and the compiler."

prop("C01", "Thread pool: every accepted task runs exactly once, under every schedule",
     """Under every interleaving, a task that was accepted by the pool and not cancelled is executed exactly once, by one
     of the pool's threads, never before the pool is started or after finishing it returned, its result or exception
     and its effects are visible through its future, and with a single thread tasks begin in the order in which they
     were queued. Finishing or destroying a pool returns only once every such task was executed and always returns
     (started or not, with any number of threads, whatever tasks throw or queue), as many tasks can run at once as there
     are threads, a cancelled task never runs and its future reports a broken promise. No interleaving has a data race,
     a use after free, a deadlock or a lost wake-up; a pool without threads, starting twice, and starting or queueing
     after finishing are rejected.""",
     ["schedules", "programs"],
     """All programs of a bounded number of pool operations, all schedules within a preemption bound, including which
     waiter a notification wakes and spurious wake-ups.""",
     """The tests run a handful of programs under whichever schedule the machine happens to produce; lost wake-ups,
     abandoned tasks and shutdown races need a particular interleaving. No test finishes a pool that was not started
     with an observer other than a hang.""",
     ["include/maliput/utility/thread_pool.h", "src/maliput/utility/thread_pool.cc"],
     [("queue", "tasks waiting for a thread", "ThreadPool::tasks_"), ("gate", "started/finished flags", "ThreadPool::is_running_, is_finished_")],
     [("queueing", "ThreadPool::Queue"), ("start gate", "ThreadPool::Start, ThreadPool::DoWork"), ("shutdown", "ThreadPool::Finish")],
     ["futures returned by Queue()", "return of Finish() and of the destructor", "order and thread of the tasks"],
     """Stateless model checking of the unmodified implementation: every schedule up to the preemption bound at every
     lock, condition variable, futex and (non reference count) atomic operation; sequentially consistent memory, with
     happens-before race detection on heap accesses for what that misses. Trusts the scheduler in lib/mcsched.cc.""",
     technique="stateless model checking of the implementation under a controlled scheduler (all interleavings up to a "
     "preemption bound, spurious wake-ups, happens-before race detection)")

prop("C02", "Rulebook: any history of edits leaves every lookup view consistent",
     """After any history of additions, removals and clears, including rejected ones, every lookup of the rulebook (by
     identifier, all rules, and by region and tolerance) returns exactly the rules that were added and not removed, each
     once per query result, whatever other rules share its identifier, lane or range. An addition of an existing
     identifier of the same kind and a removal or lookup of an unknown one are rejected and leave the book unchanged.""",
     ["histories"],
     "All histories of a bounded length over rules of every kind with overlapping, repeated and disjoint lane ranges.",
     """Tests add one or two rules, remove them once and look them up; they never check all views after interleaved
     additions and removals of rules that share lanes, ranges or identifiers.""",
     ["src/maliput/base/manual_rulebook.cc", "include/maliput/base/manual_rulebook.h", "include/maliput/api/rules/road_rulebook.h"],
     [("rule maps", "rules by kind and identifier", "ManualRulebook::Impl"), ("range index", "lane -> (range, rule)", "ManualRulebook::Impl")],
     [("add/remove", "ManualRulebook::AddRule / RemoveRule / RemoveAll"), ("range index upkeep", "AddRanges / RemoveRanges")],
     ["RoadRulebook::FindRules", "RoadRulebook::Rules", "RoadRulebook::GetRule"], REF)

prop("C03", "Phase rings: validated closure; ring book histories stay consistent",
     """A phase ring is accepted exactly when it has at least one phase, its phase identifiers are unique, all phases
     cover the same rules and the same bulbs, and the next phases are given for exactly the phases of the ring and lead
     only to phases of the ring; an accepted ring reports exactly what it was built from. After any history of additions
     and removals, including rejected ones, a phase ring book finds each ring by its identifier and by each rule it
     covers, and nothing else; no rule belongs to two rings.""",
     ["inputs", "histories"],
     "All small phase lists and next-phase tables; all bounded histories of book edits.",
     "Tests build a few well-formed rings and one or two malformed ones, and never look at the book after a rejected edit.",
     ["src/maliput/api/rules/phase_ring.cc", "src/maliput/api/rules/phase.cc", "src/maliput/base/manual_phase_ring_book.cc"],
     [("ring", "phases and next phases", "PhaseRing"), ("book", "rings by id, rules to ring", "ManualPhaseRingBook::Impl")],
     [("validation", "PhaseRing::PhaseRing"), ("book", "ManualPhaseRingBook::AddPhaseRing / RemovePhaseRing")],
     ["PhaseRing", "PhaseRingBook::FindPhaseRing / GetPhaseRing / GetPhaseRings"], REF)

prop("C04", "Rule and phase state providers agree with history and with each other",
     """After any history of state settings, every state provider reports exactly the last accepted state and announced
     next state and duration for each rule or phase ring, nothing for unknown ones, and rejects states that the rule or
     ring does not offer without changing what it reports. A phase-based provider always reports, for each rule that a
     ring covers, the state that the ring's current phase (and next phase, with its duration) gives to that rule, and
     default providers start in the first phase or state. Lookups by location report the states of the rule whose zone
     contains it.""",
     ["histories", "configurations"],
     "All bounded histories of settings, ring edits and phase changes over small rulebooks and ring books, then all queries.",
     "Tests set one state and read it back; cross-provider agreement after changes of phases, rings or rules is not sampled.",
     ["src/maliput/base/manual_phase_provider.cc", "src/maliput/base/manual_discrete_value_rule_state_provider.cc",
      "src/maliput/base/manual_range_value_rule_state_provider.cc", "src/maliput/base/phased_discrete_rule_state_provider.cc",
      "src/maliput/base/phase_based_right_of_way_rule_state_provider.cc", "src/maliput/base/manual_right_of_way_rule_state_provider.cc"],
     [("states", "last set state per rule / ring", "the providers' Impl maps")],
     [("state setting", "SetState / AddPhaseRing / SetPhase"), ("phase lookup", "PhasedDiscreteRuleStateProvider::DoGetState")],
     ["*StateProvider::GetState", "PhaseProvider::GetPhase"], REF)

prop("C05", "Rules and rule registry: acceptance, equality and filters follow the contents",
     """Two rule states or ranges are equal exactly when their severity, value, bounds and related rules and identifiers
     are (in whatever order the latter are listed), in both directions. A rule is accepted exactly when its states are
     not empty, valid and distinct, and reports them as given; a registry accepts each type once, reports exactly the
     registered types and states, and builds a rule exactly when its type and each state match what was registered for
     it. Filtering keeps exactly the rules that every filter accepts, and the yield and bulb groups that are reported
     are the ones of the rule's (current) state.""",
     ["inputs", "histories"],
     """All pairs of states over a pool of severities, texts, bounds and groupings; all lists of up to three states; all
     short histories of registrations, then all builds; all filter combinations.""",
     "Tests compare states that differ in one attribute at a time and in one direction; sub-set relations, duplicates and order are not covered.",
     ["src/maliput/api/rules/rule.cc", "src/maliput/api/rules/discrete_value_rule.cc", "src/maliput/api/rules/range_value_rule.cc",
      "src/maliput/api/rules/rule_registry.cc", "src/maliput/base/rule_filter.cc", "src/maliput/base/rule_tools.cc",
      "src/maliput/base/rule_registry.cc"],
     [("states", "states of a rule", "DiscreteValueRule, RangeValueRule"), ("registry", "types and their states", "RuleRegistry::Impl")],
     [("equality", "Rule::State::operator=="), ("validation", "Rule::ValidateRelatedRules / ValidateSeverity"), ("registry", "RuleRegistry")],
     ["rule API", "RuleRegistry", "FilterRules", "GetCurrentYieldGroup"], REF)

prop("C06", "Lane ranges and routes: overlap, inclusion and contiguity mean set algebra",
     """Intersection of longitudinal ranges, and inclusion and intersection of lane ranges and routes, agree for every
     input and tolerance with the definition on sets of points: a result exists exactly when the (toleranced) intervals
     meet, does not depend on direction or on the order of the arguments or of the ranges in a route,
     and considers every range of a route even when several lie on one lane. A range never holds an invalid bound after
     any history of accepted and rejected changes. Two lane ranges are contiguous exactly when the end of the first and
     the start of the second coincide within the road's linear and angular tolerance, and a position is included in a
     set of ranges exactly when some range's lane, at a longitudinal position of that range, is within linear tolerance.""",
     ["inputs", "histories"],
     "All pairs of ranges and of routes of up to 3 ranges over a value grid with several tolerances; all point/region combinations over a grid.",
     "Tests use single ranges per lane in one order; ordering, direction, repeated lanes and tolerance boundaries interact.",
     ["src/maliput/api/regions.cc", "include/maliput/api/regions.h"],
     [("range", "s0, s1", "SRange"), ("route", "ranges", "LaneSRoute")],
     [("set algebra", "SRange::Intersects / GetIntersection / Includes; LaneSRange, LaneSRoute::Intersects"), ("geometry", "IsContiguous, IsIncluded")],
     ["regions API"], REF)

prop("C07", "Intersections: lookups and reported states follow the current phase",
     """After any history of additions, every lookup of the intersection book (all, by identifier, traffic light, discrete
     or right-of-way rule, inertial position, or by any lane range or position with a tolerance) returns exactly the
     intersections that it describes; duplicates, nulls and unknown entries are rejected or answered with nothing, leaving
     the book unchanged. After any history of phase changes, an intersection reports the current phase of its ring, and
     the bulb, discrete and right-of-way states of exactly that phase, and includes exactly the rules, traffic lights and
     positions of its ring and region.""",
     ["histories"],
     "All bounded histories of additions (with duplicates and nulls) and phase changes; then all lookups.",
     "Tests add one intersection per book and never change phases between lookups or look at the book after a rejected addition.",
     ["src/maliput/base/intersection_book.cc", "src/maliput/base/intersection.cc", "src/maliput/api/intersection.cc", "src/maliput/api/intersection_book.cc"],
     [("book", "intersections by id", "IntersectionBook"), ("phase", "current phase of the ring", "ManualPhaseProvider")],
     [("lookup", "IntersectionBook::DoFindIntersection"), ("states", "Intersection::Phase / bulb_states / DiscreteValueRuleStates")],
     ["api::IntersectionBook", "api::Intersection"], REF)

prop("C08", "Road assembly: any attach order gives one consistent, fully indexed road",
     """However junctions, segments, lanes and branch points are created and attached to each other, in any order, the road
     that results is the same: every element is found by its identifier and by walking the road, knows its parent, its
     index and (for lanes) its left and right neighbours, and nothing else is found; an element that is not attached to
     the road is not found in it. Identifiers are unique, whatever the order. After any history of additions to branch
     points, lane ends know their branch point, the lane ends on their own and on the other side and their default
     continuation, and rejected additions and defaults leave everything unchanged; null, out of range and non-positive
     arguments are rejected.""",
     ["histories"],
     "All orders and prefixes of attaching up to 7 pieces of several shapes; all bounded branch point histories.",
     "Tests attach pieces in one order and check one level at a time; the other orders go through different code.",
     ["src/maliput/geometry_base/road_geometry.cc", "src/maliput/geometry_base/junction.cc", "src/maliput/geometry_base/segment.cc",
      "src/maliput/geometry_base/lane.cc", "src/maliput/geometry_base/branch_point.cc", "include/maliput/api/basic_id_index.h"],
     [("tree", "junctions, segments, lanes", "geometry_base"), ("index", "elements by id", "api::BasicIdIndex"), ("branch points", "lane ends on each side", "BranchPoint")],
     [("late registration", "Junction::AttachToRoadGeometry, Segment::AttachToJunction"), ("branching", "BranchPoint::AddABranch / AddBBranch / SetDefault")],
     ["api::RoadGeometry", "api::RoadGeometry::IdIndex", "api::BranchPoint", "api::Lane"], REF)

prop("C09", "Road network validation reports exactly the defects that are present",
     """Checking the invariants of a road reports a problem exactly when lane ends that share a branch point do not coincide
     in position or orientation within the linear and angular tolerances, or do not know that branch point. Validating a
     road network fails exactly when an enabled option covers a defect that is present (missing rules, wrong or
     inconsistent rule, phase, intersection, traffic light or related-rule and related-lane data, discontinuities),
     whatever other defects and options there are; a network without one of its parts is rejected. The network finds
     exactly the lanes and intersections that contain a position.""",
     ["configurations"],
     "All combinations of defects over several worlds with all sets of validation options; all lane end offsets and rotations over a grid around the tolerances.",
     "Tests check one option with one defect at a time; they do not check that other defects do not mask it or raise it.",
     ["src/maliput/base/road_network_validator.cc", "src/maliput/api/road_geometry.cc", "src/maliput/api/road_network.cc"],
     [("options", "enabled checks", "RoadNetworkValidatorOptions"), ("world", "rules, rings, intersections, lights", "RoadNetwork")],
     [("validation", "ValidateRoadNetwork"), ("invariants", "RoadGeometry::CheckInvariants, CheckBranchPoint")],
     ["ValidateRoadNetwork", "RoadGeometry::CheckInvariants", "RoadNetwork"], REF)

prop("C10", "Road position queries find the nearest lane, under every search strategy",
     """For every road, position, frame translation and search strategy (with any sampling step), the nearest road position
     is on a lane whose distance is minimal; among equally near ones it is in the segment with the least height, within
     its lane's bounds if possible, and then with the least lateral offset; with a hint it is on the hinted lane. A query
     with a radius returns exactly one result for each lane within the radius (the linear tolerance if it is zero, every
     lane if it is infinite), and filters keep exactly what they accept. Positions in the inertial frame are those of the
     backend displaced by the road's translation, in both directions; null hints, negative radii and empty roads are
     rejected.""",
     ["configurations", "inputs"],
     "All sets of up to 3 roads out of 10 overlapping, crossing, inclined, banked and distant ones x strategies and steps x a grid of positions x radii.",
     "Tests query a few positions on one road with one step, away from overlaps, heights, ties and sampling gaps.",
     ["src/maliput/geometry_base/kd_tree_strategy.cc", "src/maliput/geometry_base/brute_force_strategy.cc",
      "src/maliput/geometry_base/brute_force_find_road_positions_strategy.cc", "src/maliput/geometry_base/strategy_base.cc",
      "src/maliput/geometry_base/filter_positions.cc", "src/maliput/geometry_base/lane.cc"],
     [("samples", "points of the lanes", "KDTreeStrategy::kd_tree_")],
     [("nearest", "KDTreeStrategy::ClosestLane, BruteForceStrategy"), ("range", "DoFindRoadPositions"), ("preference", "IsNewRoadPositionResultCloser")],
     ["RoadGeometry::ToRoadPosition", "RoadGeometry::FindRoadPositions", "Lane::ToLanePosition"], REF)

prop("C11", "Spatial index: nearest and range queries equal exhaustive search",
     """For every set of points (with repetitions and equal coordinates), in any order and dimension, the nearest point
     query returns an indexed point at the least distance from the query (or closer than the tolerance, if one is given),
     and the range query returns exactly the indexed points inside the box, each once. Empty sets and non-positive
     tolerances are rejected.""",
     ["inputs"],
     "All sequences of few points over small grids in 1, 2 and 3 dimensions, all permutations of 7 points, lattices of up to 125 (thorough: 216) points; grids of queries, tolerances and boxes.",
     "Tests use a few well separated points; pruning and ties on the splitting plane depend on the shape of the tree.",
     ["include/maliput/math/kd_tree.h", "src/maliput/math/axis_aligned_box.cc"],
     [("tree", "nodes with their region", "math::KDTreeBase::nodes_")],
     [("search", "nearest_point"), ("range", "KDTree3D::RangeSearch")],
     ["KDTree::nearest_point", "KDTree3D::RangeSearch"], REF)

prop("C12", "Bounding regions: containment and overlap are those of the sets of points",
     """For all axis-aligned and oriented boxes, a point is contained exactly when it lies in the box as placed, oriented
     and widened by the tolerance, the vertices are the corners of that box, two boxes intersect exactly when they have a
     point in common (symmetrically), one contains the other exactly when it contains all its points, the overlapping
     type follows from both, and the intersection of axis-aligned boxes is the box of the common points (up to the
     tolerance, at the boundary). Inverted corners, negative sizes and tolerances and mixed kinds are rejected.""",
     ["inputs"],
     "All pairs of boxes over small sets of sides, sizes, orientations and displacements; grids of points.",
     "Tests use cubes, rotations about one axis and concentric boxes, which hide inverted rotations and mixed frames.",
     ["src/maliput/math/axis_aligned_box.cc", "src/maliput/math/bounding_box.cc", "include/maliput/math/bounding_region.h", "src/maliput/math/overlapping_type.cc"],
     [("box", "placement, size, orientation", "BoundingBox, AxisAlignedBox")],
     [("separating axes", "BoundingBox::IsBoxIntersected"), ("containment", "DoContains, IsBoxContained")],
     ["BoundingRegion::Contains / Overlaps", "get_vertices", "GetIntersection"], REF)

prop("C13", "Waypoints along a route are evenly spaced by path length",
     """Sampling a route yields the positions at the start of the route and after every whole multiple of the sampling step of
     the path length, following the ranges in order and each in its own direction, across range boundaries. The step is the
     requested rate, but no less than the linear tolerance and no more than the length of the route, and the end of the
     route is added when what remains is longer than the linear tolerance. Non-positive rates and unknown lanes are
     rejected.""",
     ["inputs"],
     "All routes of up to 4 (thorough: 5) ranges out of 9, in both directions, partial and degenerate x 11 rates x 2 frames.",
     "Tests sample along single-direction routes of a mock; carrying the remainder over boundaries and directions is never varied.",
     ["src/maliput/api/road_geometry.cc", "include/maliput/api/road_geometry.h"],
     [("remainder", "path length left over from the previous range", "DoSampleAheadWaypoints::previous_s_difference")],
     [("sampling", "RoadGeometry::DoSampleAheadWaypoints")],
     ["RoadGeometry::SampleAheadWaypoints"], REF)

prop("C14", "Lane sequences between two lanes are exactly the simple paths within a length",
     """For every road network and pair of lanes, the sequences found are exactly the paths of distinct lanes that lead, through
     connected lane ends, from the first to the second, whose intermediate lanes add up to at most the length bound; the
     ones that take a u-turn (leave a lane through the end they entered it by) are removed exactly when asked for. The routes
     derived from them start and end at the requested positions, cover the intermediate lanes completely and are continuous;
     the end that joins two lanes is determined as the one they are connected at, or rejected if there is none.""",
     ["configurations", "inputs"],
     "All topologies of up to 4 lanes (every partition of their ends in two-sided branch points, with self loops and parallel lanes) x pairs of lanes x length bounds.",
     "Tests use a handful of fixed networks; which end lanes are entered through, loops and double connections are never varied.",
     ["src/maliput/routing/find_lane_sequences.cc", "src/maliput/routing/derive_lane_s_routes.cc"],
     [("path", "lanes visited so far and their length", "FindLaneSequencesHelper")],
     [("search", "FindLaneSequences"), ("u-turns", "HasUTurn"), ("ranges", "DeriveLaneSRoutes, DetermineEdgeS")],
     ["FindLaneSequences", "DeriveLaneSRoutes", "DetermineEdgeS"], REF)

prop("C15", "Routing graph: nodes, edges and edge sequences are those of the road network",
     """For every road network, the routing graph has one edge per segment and one node per set of connected extremes of
     segments; each edge joins the nodes of its own extremes, every branch point is in exactly one node and can be found
     from it, and the end of an edge at each node follows. The edge sequences between two different nodes are exactly the
     simple paths between them, leaving out those in which consecutive segments are not connected face to face. Unknown nodes and
     missing arguments are rejected.""",
     ["configurations"],
     "All topologies of up to 4 lanes grouped in segments in every way (partitions of lane ends in two-sided branch points) x pairs of nodes.",
     "Tests use three hand-made networks, in which segments have one lane and all lanes have the same orientation.",
     ["src/maliput/routing/graph/graph.cc", "src/maliput/routing/graph/graph_utils.cc", "src/maliput/routing/graph/graph.h", "src/maliput/routing/graph/graph_utils.h"],
     [("graph", "nodes and edges", "routing::graph::Graph")],
     [("construction", "BuildGraph"), ("lookup", "FindNode, DetermineEdgeEnd"), ("paths", "FindAllEdgeSequences")],
     ["BuildGraph", "FindNode", "DetermineEdgeEnd", "FindAllEdgeSequences"], REF)

prop("C16", "Computed routes are exactly those that join start and end within the constraints",
     """For every road network and pair of positions on segments that start and end at different nodes of the network, the
     routes computed are exactly the paths of segments, each traversed once and without u-turns, that join both positions; each
     phase spans the lanes of one segment in the direction of travel, starts where the previous one ends, and the first and last ones
     contain the requested positions. Routes that exceed the maximum cost of a phase or of the whole route, or that need lane switches when these are
     not allowed, are left out and no other is; positions outside of the network and negative costs are rejected.""",
     ["configurations", "inputs"],
     "All topologies of up to 3 lanes grouped in segments in every way, and rings of 4 x pairs of lanes x positions x constraints.",
     "Tests route over two fixed maps with few constraints, without forks, parallel roads or segments of opposite orientation.",
     ["src/maliput/routing/distance_router.cc", "src/maliput/routing/router.cc", "src/maliput/routing/graph/graph_utils.cc"],
     [("phases", "ranges and start and end positions", "DistanceRouter::DoComputeRoutes")],
     [("search", "DistanceRouter::DoComputeRoutes"), ("constraints", "RoutingConstraints, ValidateRoutingConstraintsOrThrow")],
     ["Router::ComputeRoutes", "Route", "Phase"], REF)

prop("C17", "Routes: positions, relations between their ranges and lane routes are consistent",
     """A phase is accepted exactly when its ranges exist, are adjacent to one another in order and contain all its start and
     end positions. In every route, a position is found in a range that contains it, or else in the closest one; the
     relation of every two ranges is the one of their places in the route (before, after, beside, on which side, coincident,
     unrelated or unknown); and from every position there is a lane route to the end of the route that only moves to
     adjacent or continuing ranges of the route and switches lanes as few times as possible. A route is reported as connected end to end exactly when it
     has one start and one end and the positions at each interface match one to one, in space and through the branches of the
     lanes.""",
     ["configurations", "inputs"],
     "All routes of up to 3 (thorough: 4) phases of 1 to 3 lanes x lateral offsets x directions, also splitting a segment, x ends; grids of positions, pairs of ranges, and subsets of interface positions.",
     "Tests use one or two fixed routes along +s; offsets, directions, missing predecessors and positions outside of the route are hardly varied.",
     ["src/maliput/routing/phase.cc", "src/maliput/routing/route.cc", "include/maliput/routing/route.h", "include/maliput/routing/phase.h"],
     [("route", "phases, their ranges and index by lane", "routing::Route::phases_, lane_id_to_indices_")],
     [("positions", "FindPhasePosition, FindRoutePosition"), ("relations", "ComputeLaneSRangeRelation"), ("lane routes", "ComputeLaneSRoute"), ("connectivity", "ValidateEndToEndConnectivity")],
     ["Phase", "Route::FindRoutePosition", "Route::ComputeLaneSRangeRelation", "Route::ComputeLaneSRoute", "Route::ValidateEndToEndConnectivity"], REF)

prop("C18", "Loaded books hold what their documents describe; bad documents are rejected",
     """Loading a document (rule registry, rulebook with a rule registry or with right of way and direction usage rules, traffic
     light book, phase ring book, intersection book), from text or from a file, gives a book with exactly the entities the
     document describes: ids, types, zones, values, ranges, severities, related rules and ids, poses, bulb attributes, phases
     with the state of every rule and bulb, transitions with durations, initial phases and regions; with the documented
     defaults for what may be omitted (whole lanes, strict severity, stop excluded zones, On and Off bulbs, and in each phase
     the most restrictive right of way state and the default bulb state). A document with duplicate ids, unknown references, missing
     mandatory attributes, attributes of the wrong kind, or values out of range fails with an exception.""",
     ["inputs", "configurations"],
     "All documents within the bounds of each loader (up to 2 entities of each kind), and each of them with every single fault: a node left out, replaced by another kind, or an extra element.",
     "Tests load a few complete documents; combinations of omissions, phases, overrides and malformed nodes are not enumerated.",
     ["src/maliput/base/rule_registry_loader.cc", "src/maliput/base/road_rulebook_loader.cc", "src/maliput/base/road_rulebook_loader_using_rule_registry.cc", "src/maliput/base/traffic_light_book_loader.cc", "src/maliput/base/phase_ring_book_loader.cc", "src/maliput/base/intersection_book_loader.cc", "src/maliput/base/yaml_conversion.cc"],
     [("books", "what was loaded", "the books of api::rules and IntersectionBook")],
     [("rules", "LoadRuleRegistry, LoadRoadRulebook"), ("lights", "LoadTrafficLightBook"), ("rings", "LoadPhaseRingBook"), ("intersections", "LoadIntersectionBook")],
     ["LoadRuleRegistry*", "LoadRoadRulebook*", "LoadTrafficLightBook*", "LoadPhaseRingBook*", "LoadIntersectionBook*"], REF)

prop("C19", "Meshes keep their surface: simplification merges only flat regions",
     """Merging the faces of a mesh gives one face per connected region of coplanar faces (within the tolerance along the vertex
     normals, of the plane of the face the region grows from), whose vertices are, in order, those of the region's contour, with
     their normals; a vertex is dropped only when it is within the tolerance of the line through the kept vertices before and
     after it, so exactly flat regions keep exactly their surface. Adjacency, contours and distances to planes and lines are
     exact. A mesh holds every vertex and normal once, its faces refer to the right ones, also after being appended to another
     mesh, and its OBJ text, alone or chained after others, reads back as the same faces.""",
     ["inputs"],
     "All subsets of small grids of cells (quads or triangles) x heights and offsets of every vertex x normals x start vertex; all meshes of up to 2 faces over a pool of vertices.",
     "Tests use a few fixed meshes; which faces merge and what remains of the contour depends on the shape of the region.",
     ["src/maliput/utility/mesh_simplification.cc", "include/maliput/utility/mesh_simplification.h", "include/maliput/utility/mesh.h"],
     [("mesh", "vertices, normals, faces by index", "utility::mesh::GeoMesh")],
     [("simplification", "SimplifyMeshFaces, MergeMeshFaces"), ("text", "GeoMesh::EmitObj")],
     ["SimplifyMeshFaces", "AggregateAdjacentCoplanarMeshFaces", "ComputeMeshFacesContour", "SimplifyMeshFacesContour", "GeoMesh::EmitObj"], REF)

prop("C20", "Generated road meshes cover the road surface, and their files hold them",
     """The mesh of a segment covers the area between the segment bounds of its lanes exactly once, and the mesh of each lane the area
     between its lane bounds, at the requested elevation, with faces that look up and are no longer than the grid (or that span
     no more of a curve than the tolerance); so do both meshes of the elevation bounds. Stripes of the requested width follow the bounds of each
     lane and arrows that narrow from 80% of the width of the lane to nothing mark its start and end, if they fit. With
     simplification no vertex leaves the surface, and flat rectangular surfaces are still covered exactly. This holds for
     straight and curved lanes, whose width may change or be zero on a side or at an end. Branch points are drawn once per branch, pointing into each
     lane, and raised only as needed to not overlap others. Only requested features are drawn, and segments that are not highlighted go, with
     their lanes and markers, to the grayed meshes. Each mesh has its material; the OBJ, MTL and URDF files hold those meshes within a
     tenth of the linear tolerance, relative to the requested origin.""",
     ["configurations", "inputs"],
     "All segments of 1 or 2 lanes over curvature, length, widths at both ends, shoulders and tolerance x grids x optimization x simplification; networks of up to 3 segments x features x highlights; stacks of up to 3 roads.",
     "Tests compare a few files over fixed roads of constant width, or check that some faces exist.",
     ["src/maliput/utility/generate_obj.cc", "src/maliput/utility/generate_urdf.cc"],
     [("mesh", "faces of each material", "std::map<std::string, std::pair<GeoMesh, Material>>")],
     [("surfaces", "CoverLaneWithQuads"), ("markers", "StripeLaneBounds, MarkLaneEnds"), ("branch points", "RenderBranchPoint"), ("files", "GenerateObjFile, GenerateUrdfFile")],
     ["BuildMesh", "BuildMeshes", "BuildRoadGeometryMesh", "GenerateObjFile", "GenerateUrdfFile"], REF)

prop("C21", "Text views and segment analysis show the road network as it is",
     """The segments confluent with a segment are exactly those reached from it through lane ends that leave a branch point on the same
     side as its own, transitively, and the analysis of a road geometry is the partition of its segments into those
     components. The dot text of a routing graph holds every edge of the graph exactly once, between its nodes, with the edges that a route
     traverses, and no others, highlighted; a route over segments that are not in the graph is rejected. The text of a road
     geometry lists exactly what the options ask for, in the order of the road, with the lengths, ends and neighbours of the lanes.
     Numbers are written in fixed point with the requested number of decimals, correctly rounded.""",
     ["configurations", "inputs"],
     "All topologies of up to 4 lanes grouped in segments in every way; all of up to 3 lanes x routes of up to 3 phases; roads of up to 2 x 2 x 3 x all options; numbers x precisions.",
     "Tests use a mock with two components, one graph and one geometry with a few of the options.",
     ["src/maliput/utility/segment_analysis.cc", "src/maliput/utility/generate_dot.cc", "src/maliput/utility/generate_string.cc", "include/maliput/utility/string_format.h"],
     [("components", "segments visited", "AnalyzeConfluentSegments")],
     [("analysis", "FindConfluentSegments, AnalyzeConfluentSegments"), ("text", "GenerateDotStream, GenerateString, to_str")],
     ["FindConfluentSegments", "AnalyzeConfluentSegments", "GenerateDotStream", "GenerateString"], REF)

prop("C22", "Vectors, matrices, rotations, text and tolerances obey their algebra",
     """Vectors and matrices satisfy the laws of linear algebra: componentwise sums and scalings, dot and cross products and
     norms, products, determinants, cofactors, adjugates, transposes and inverses, with singular matrices rejected. Quaternions,
     rotation matrices, roll-pitch-yaw angles and api::Rotation describe the same rotation however they are converted, composed,
     inverted or interpolated, and keep lengths and handedness; the rotation between two directions takes one to
     the other, also when they are opposite. A vector reads back from its text, and malformed text is rejected. Comparisons of values accept exactly those
     within the absolute or relative tolerance; saturation is the closest point of the interval; RangeValidator moves values within tolerance into
     the open range and rejects the others; Fresnel integrals match their definition.""",
     ["inputs"],
     "All tuples of components from grids with zeros, signs, large and small values and (when comparing) infinities; grids of axes x angles, of pairs of rotations and of directions; every text of up to 7 tokens.",
     "Tests check a few vectors, matrices and angles; degenerate and opposite directions, infinities and malformed text are not among them.",
     ["include/maliput/math/*.h", "src/maliput/math/*.cc", "include/maliput/common/range_validator.h", "src/maliput/common/range_validator.cc", "include/maliput/math/compare.h"],
     [("values", "components", "math::Vector, Matrix, Quaternion, RollPitchYaw")],
     [("algebra", "Vector, Matrix"), ("rotations", "Quaternion, RollPitchYaw, api::Rotation"), ("tolerances", "CompareVectors, RangeValidator, saturate"), ("text", "VectorBase::FromStr, to_str")],
     ["math::Vector", "math::Matrix", "math::Quaternion", "math::RollPitchYaw", "api::Rotation", "common::RangeValidator"], REF)

prop("C23", "Identifiers and index keys: equality, order and hash agree",
     """Values that identify things (typed and unique identifiers, bulb and bulb group identifiers, mesh vertices, normals and
     edges, lane ends) are equal exactly when their components are; equal values hash alike and no two
     different values are treated as one by ordered or unordered containers; orders are strict, total and transitive. The hashed
     content of a value, of strings, pairs, optionals, sets, maps and enumerations, tells different values apart.
     Empty identifiers are rejected.""",
     ["inputs"],
     "All pairs (thorough: triples) of texts of up to 3 characters of an alphabet with the delimiters; all pairs of composed values over small grids.",
     "Tests compare two or three values; collisions of concatenated components or of optional fields need particular pairs.",
     ["include/maliput/api/type_specific_identifier.h", "include/maliput/api/unique_id.h", "include/maliput/common/maliput_hash.h", "include/maliput/utility/mesh.h", "include/maliput/utility/mesh_simplification.h", "src/maliput/api/rules/traffic_lights.cc", "include/maliput/api/lane_data.h"],
     [("keys", "what containers index by", "TypeSpecificIdentifier, UniqueId, GeoVertex, LaneEnd")],
     [("hash", "hash_append, uhash"), ("order", "operator<, StrictOrder")],
     ["std::hash of identifiers", "hash_append", "LaneEnd::StrictOrder", "DirectedEdgeIndex"], REF)

prop("C24", "Traffic lights keep a consistent hierarchy and unique identifiers",
     """A bulb is accepted exactly when its arrow orientation is given just for arrows; its states are those listed or
     else off and on, and its default state is the least restrictive to show: off, then blinking, then on. A group with no
     bulbs, null bulbs or repeated identifiers, or a light with null or repeated groups, is rejected; otherwise every bulb and
     group is found by its identifier from its parent, refers back to it, and its unique identifier names the whole chain, which is
     not available before it has parents. After every history of additions a book returns exactly the lights added, each by its
     identifier, and rejects null and repeated ones.""",
     ["inputs", "histories"],
     "All bulbs over types x arrows x lists of states; all lights of up to 2 groups of up to 2 (thorough: 3) bulbs, with repetitions and nulls; all histories of up to 4 additions.",
     "Tests build one light and one book.",
     ["src/maliput/api/rules/traffic_lights.cc", "include/maliput/api/rules/traffic_lights.h", "src/maliput/base/traffic_light_book.cc"],
     [("hierarchy", "parents of bulbs and groups", "Bulb::bulb_group_, BulbGroup::traffic_light_"), ("book", "lights by id", "TrafficLightBook::Impl")],
     [("construction", "Bulb, BulbGroup, TrafficLight"), ("lookup", "GetBulb, GetBulbGroup, GetTrafficLight")],
     ["Bulb", "BulbGroup", "TrafficLight", "TrafficLightBook"], REF)

prop("C25", "Paths, directories and files are handled as the file system does",
     """After any sequence of creating directories (one or with their parents), removing directories and removing files, each
     operation succeeds exactly when it can and otherwise reports failure and changes nothing; the tree is the one expected
     and nothing else is touched, in particular what lies in a directory that is not empty or behind a symbolic link.
     A path exists, is a file, is a directory or is readable exactly when it is so, and reading a file returns every byte of it.
     A path that is set or extended denotes the concatenation of its parts, an absolute part replacing what precedes. The temporary directory is given by
     the first variable that is set, lists of paths in variables are split completely, the suffix of a file is what follows its last dot, and
     listing a directory returns each regular file with the suffix below it once.""",
     ["histories", "inputs", "configurations"],
     "All histories of up to 3 operations over nested, linked and locked paths, from nothing and (up to 2) from eight other trees; all contents of up to 4 bytes; all texts of up to 4-6 characters of an alphabet with the delimiters; all small trees.",
     "Tests create and remove one directory and one file in a temporary place and read one text file.",
     ["src/maliput/common/filesystem.cc", "include/maliput/common/filesystem.h", "src/maliput/utility/file_utils.cc"],
     [("tree", "entries of a directory", "the file system"), ("path", "text of a path", "Path::path_")],
     [("operations", "create_directory, create_directory_recursive, remove_directory, remove_file"), ("queries", "exists, is_file, is_directory, read_as_string"), ("files", "GetAllFilePathsFromDirectory, GetAllPathsFromEnvironment, GetFileExtension")],
     ["Filesystem", "Path", "GetAllFilePathsFromDirectory", "GetAllPathsFromEnvironment", "GetFileExtension"], REF)

prop("C26", "Plugins are found, replaced and used by their identifier",
     """A library is accepted as a plugin exactly when it names itself and its type; its symbols are called with the arguments and
     results given, and symbols it does not have are rejected. A plugin manager holds exactly the plugins in the directories listed
     by the environment variable, whether one or several and whether they exist, and those added afterwards; of several with the same
     identifier the last one found or added prevails. A rejected addition leaves the manager as it was. A road network is created by
     the loader that was asked for, with the properties given; an unknown identifier, or one that is not a road network
     loader, is rejected; a loader that fails does so for the caller; later requests are served by the same library.""",
     ["configurations", "histories"],
     "Real shared libraries, good and malformed; all contents of two directories x values of the variable x up to 2 additions; all sequences of up to 2 (thorough: 3) requests in a process.",
     "Tests load two plugins from one directory each.",
     ["src/maliput/plugin/maliput_plugin.cc", "src/maliput/plugin/maliput_plugin_manager.cc", "src/maliput/plugin/create_road_network.cc", "include/maliput/plugin/*.h"],
     [("plugins", "plugins by identifier", "MaliputPluginManager::plugins_"), ("library", "handle of a library", "MaliputPlugin")],
     [("discovery", "MaliputPluginManager, AddPlugin"), ("creation", "CreateRoadNetwork, CreateRoadNetworkLoader"), ("symbols", "ExecuteSymbol")],
     ["MaliputPlugin", "MaliputPluginManager", "CreateRoadNetwork", "CreateRoadNetworkLoader"], REF)

prop("C27", "Messages reach the sink by level; assertions report once",
     """After any sequence of changes of level and of sink, a message is written exactly when its level is at least that of the logger,
     once, complete, in order and labelled with its level, to the sink set at that time and to no other; changing the level returns
     the previous one; unknown levels and null sinks are rejected and change nothing. An assertion evaluates its condition once and throws exactly when it does not
     hold, with the condition and the place in its message, also in a branch without braces; a demand ends the process exactly when its condition does not hold.""",
     ["histories", "inputs"],
     "All histories of up to 3 (thorough: 4) operations of the global logger and of another one; every macro x values around its limit.",
     "Tests set one level and one sink and write one message each.",
     ["src/maliput/common/logger.cc", "include/maliput/common/logger.h", "include/maliput/common/maliput_throw.h", "include/maliput/common/maliput_abort.h", "src/maliput/common/maliput_abort_and_throw.cc"],
     [("logger", "level and sink", "Logger::level_, Logger::sink_")],
     [("filter", "Logger::log, set_level"), ("sinks", "set_sink, Sink"), ("assertions", "MALIPUT_THROW_UNLESS, MALIPUT_VALIDATE, MALIPUT_DEMAND")],
     ["Logger", "set_log_level", "MALIPUT_THROW_UNLESS", "MALIPUT_DEMAND"], REF)

prop("C28", "Arc length integrals and inverses are accurate, whatever came before",
     """The integral of a speed, its inverse, and the solution of an equation of both variables agree with the exact ones within the
     accuracy asked for; the functions they are turned into agree with them over their whole range and at its ends, are constant
     within the tolerance beyond it and reject what is farther out; what lies before the start is rejected. Every
     query gives the same result, within the accuracy, whatever queries came before it with whatever parameters, also when an earlier one was interrupted by an
     exception of the function at any of its evaluations; the functions obtained earlier are not affected by later queries.""",
     ["histories", "inputs", "crash points"],
     "Six speeds x bounds x steps x accuracies x parameters x lengths against closed forms; all histories of up to 3 (thorough: 4) queries of one integrator, one of them interrupted at each of several evaluations.",
     "Tests integrate one helix with one set of parameters, forwards, without failures.",
     ["src/maliput/drake/arc_length_integrator.cc", "src/maliput/drake/inverse_arc_length_integrator.cc", "src/maliput/drake/systems/analysis/*", "src/maliput/drake/common/trajectories/*"],
     [("cache", "time, state and parameters that the next solution may continue from", "InitialValueProblem::context_, current_values_"), ("dense output", "segments of the trajectory being built", "IntegratorBase::dense_output_")],
     [("solutions", "InitialValueProblem::Solve, DenseSolve, ResetCachedState"), ("steps", "IntegratorBase::StepOnceErrorControlledAtMost, RungeKutta3Integrator::DoStep")],
     ["ArcLengthIntegrator", "InverseArcLengthIntegrator"], REF)

prop("C29", "Comparisons report exactly what differs; collections are exact",
     """Two values of any type of the interface (positions, ranges, routes, lane ends, phases and rings, bulbs, groups and traffic lights, every kind of rule and of
     its states and values) are compared equal exactly when all their members are equal, and comparing never fails, whatever is missing on either side.
     Positions, bounds and results within a tolerance are reported close exactly when every component is. The check of the indexing of a
     road geometry finds each element that its index does not return. Sets of lanes, junctions and branch points hold what was put into them, in order, and reject
     indices out of range; road positions convert to inertial ones through their lane.""",
     ["inputs", "configurations"],
     "All pairs of values of 50 families, each of up to 2016 values spanning every member (pairs of the largest ones differ in at most 2 members; thorough: all), all combinations of component differences, all small faulty road geometries.",
     "Tests compare a value with itself and with one or two others for some of the types.",
     ["src/maliput/api/compare.cc", "src/maliput/api/rules/compare.cc", "src/maliput/routing/compare.cc", "src/maliput/geometry_base/*", "include/maliput/api/compare.h", "include/maliput/api/rules/compare.h", "include/maliput/common/compare.h"],
     [("values", "members of each value", "classes of maliput::api and maliput::api::rules")],
     [("comparisons", "IsEqual, Is...Close, IsLaneEndEqual"), ("indexing", "CheckIdIndexing")],
     ["IsEqual", "IsLanePositionResultClose", "CheckIdIndexing"], REF)

prop("C30", "Polynomials, trajectories and dense outputs agree with arithmetic",
     """Sums, differences, products, scalings, derivatives, integrals, substitutions, partial evaluations and renamings of polynomials of one and of several variables have
     the values and coefficients of the functions they stand for, however the polynomials were built; comparisons, degrees, variables and names are those of
     their terms; what is defined for one variable only is rejected for more. A trajectory of polynomial pieces has, after every sequence of edits (segments appended, removed, concatenated, sliced, reversed, scaled or shifted in time,
     arithmetic, blocks), the values and derivatives, times, dimensions and segments that follow from those before, is clipped to its ends, and is unchanged by edits that are rejected. Interpolations
     pass through their samples with the continuity, end conditions and shape of their kind, and reject samples and breaks that do not fit. A dense output holds
     exactly the updates that were consolidated and not rolled back, continuous in value and derivative, and rejects updates that do not continue it.""",
     ["inputs", "histories"],
     "All pairs of polynomials of degree up to 3 and 2 with coefficients of 3 (thorough: 4) values; all polynomials of 2 monomials in 3 variables; all histories of 2 (thorough: 3) of 20 edits of trajectories of 1 to 5 segments; 9 kinds of interpolation through all samples of up to 4 values at up to 5 (6) breaks; all histories of 5 (7) operations on a dense output.",
     "No test exercises these directly: they are seen only through the integration of one helix.",
     ["src/maliput/drake/common/polynomial.cc", "src/maliput/drake/common/polynomial.h", "src/maliput/drake/common/trajectories/*", "src/maliput/drake/systems/analysis/hermitian_dense_output.h", "src/maliput/drake/systems/analysis/dense_output.h"],
     [("trajectory", "breaks and polynomials of each segment", "PiecewiseTrajectory::breaks_, PiecewisePolynomial::polynomials_"), ("dense output", "updates not consolidated, trajectory", "HermitianDenseOutput::raw_steps_, continuous_trajectory_")],
     [("arithmetic", "Polynomial operators, Derivative, Integral, Substitute"), ("edits", "ConcatenateInTime, Append..., slice, ReverseTime, ScaleTime, shiftRight"), ("interpolation", "FirstOrderHold, CubicHermite, CubicShapePreserving, CubicWithContinuousSecondDerivatives, LagrangeInterpolatingPolynomial"), ("updates", "HermitianDenseOutput::Update, Rollback, Consolidate")],
     ["Polynomial", "PiecewisePolynomial", "HermitianDenseOutput"], REF)

prop("C31", "Solutions of initial value problems do not depend on earlier ones",
     """The solution of a vector or scalar initial value problem, and the integral of a function, at a time from its start on is the exact one within the accuracy that is set, for the initial
     time, initial state and parameters given and the defaults for those not given (an integral starts at 0 unless told), whatever was solved before with whatever values, and with the settings
     of the integrator kept. A solution over an interval spans exactly that interval, agrees with the exact one at its ends and in between, in all elements and in each, rejects times and elements out of it,
     and stays what it was after later solutions. Times before the start, values of other dimensions and missing defaults are rejected, and leave the problem as it was.""",
     ["inputs", "histories"],
     "All histories of 3 (thorough: 4) solutions at 3 (4) times or over as many intervals with 6 combinations of given values, or rejected ones, of a problem of each kind with two settings; all combinations of defaults.",
     "Tests see these only through arc lengths of one curve.",
     ["src/maliput/drake/systems/analysis/initial_value_problem.cc", "src/maliput/drake/systems/analysis/scalar_initial_value_problem.h", "src/maliput/drake/systems/analysis/antiderivative_function.h", "src/maliput/drake/systems/analysis/integrator_base.cc", "src/maliput/drake/systems/analysis/runge_kutta3_integrator.cc"],
     [("problem", "values of the last solution, state and time reached", "InitialValueProblem::current_values_, context_"), ("integrator", "settings, step", "InitialValueProblem::integrator_")],
     [("solve", "InitialValueProblem::Solve, ScalarInitialValueProblem::Solve, AntiderivativeFunction::Evaluate"), ("interval", "DenseSolve, MakeDenseEvalFunction")],
     ["InitialValueProblem", "ScalarInitialValueProblem", "AntiderivativeFunction"], REF)

