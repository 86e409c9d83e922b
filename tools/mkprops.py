#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CORE="lanelet2_core/"; IO="lanelet2_io/"; RT="lanelet2_routing/"; TR="lanelet2_traffic_rules/"

prop("C01", "Map layer lookups and spatial searches agree with a full scan",
 "After any history of adding primitives to a map or submap, every layer's exists/get/find/size/iteration, findUsages, search(box), nearest, nearestUntil, searchUntil and the free functions findNearest, findWithin2d/3d and findUsages return exactly the elements a linear scan over everything that was added would return, in the promised (bounding-box or exact distance) order. Lookups of unknown ids report absence (exists false, find end, get throws NoSuchPrimitiveError), and the const and non-const variants agree.",
 ["inputs","histories"], "Every sequence of adds (points, line strings, polygons, lanelets, areas, regulatory elements, shared or not, repeated or not) to LaneletMap/LaneletSubmap/createMap, every query point, box, count and radius.",
 "Unit tests query one hand-made map with one or two boxes; R-tree, usage-lookup and id-map only diverge from a scan for particular insertion orders, shared sub-elements and query positions.",
 [CORE+"src/LaneletMap.cpp", CORE+"include/lanelet2_core/LaneletMap.h", CORE+"include/lanelet2_core/geometry/impl/LaneletMap.h"],
 [("PrimitiveLayer::Tree (rtree + usage multimap)", CORE+"src/LaneletMap.cpp"), ("findNearest/findWithin", CORE+"src/LaneletMap.cpp and geometry/impl/LaneletMap.h")],
 ["PrimitiveLayer::search/nearest/findUsages", "geometry::findNearest, geometry::findWithin2d/3d"])

prop("C02", "Adding a primitive adds everything it is made of, under unique ids",
 "Adding a primitive to a LaneletMap (directly, through createMap or by load) makes every point, line string, polygon, lanelet and regulatory element it is composed of findable in its layer and shared, not copied, while a LaneletSubmap contains exactly what was added plus the elements its regulatory elements must keep alive. Elements added without an id get an id that no other element of the process has; ids handed out by utils::getId or uniqueId never equal an id that is in use or was registered, and re-adding or re-using elements changes nothing.",
 ["inputs","histories"], "Every nesting of primitives and regulatory elements (including cyclic lanelet/regulatory element references and areas), every interleaving of id registration, id requests and adds.",
 "Tests add a handful of fixed primitives; the closure depends on which sub-elements are already present, which ids are still unset and in which order things arrive.",
 [CORE+"src/LaneletMap.cpp", CORE+"include/lanelet2_core/LaneletMap.h", CORE+"include/lanelet2_core/utility/Utilities.h"],
 [("LaneletMap::add overloads, AddVisitor", CORE+"src/LaneletMap.cpp"), ("utils::getId/registerId", CORE+"src/LaneletMap.cpp")],
 ["LaneletMap layers after add", "utils::getId"])

prop("C03", "Line string and polygon views are consistent windows on one shared list",
 "All handles to one line string or polygon (copies, const, 2D/3D, hybrid, inverted) show the same list of shared points, an inverted view showing it exactly reversed and inverting twice giving an equal object. Every mutation made through any view (push/pop, insert, erase, resize, clear, assign, element and point changes) acts like the same operation on a plain list in that view's direction and is visible through all other views; segments, sizes, front/back, indexing and iterators agree with it.",
 ["inputs","histories"], "Every sequence of mutations issued through randomly chosen views, on lists of every length including 0 and 1, with repeated points.",
 "Tests exercise a few operations on 2-4 points in one direction; off-by-one errors of inverted insert/erase/resize and stale 2D caches appear only for particular positions and operation sequences.",
 [CORE+"include/lanelet2_core/primitives/LineString.h", CORE+"include/lanelet2_core/primitives/Polygon.h", CORE+"include/lanelet2_core/primitives/Point.h", CORE+"include/lanelet2_core/utility/ReverseAndForwardIterator.h", CORE+"include/lanelet2_core/utility/TransformIterator.h"],
 [("LineStringImpl inverted access", CORE+"include/lanelet2_core/primitives/LineString.h"), ("PointData 2D cache", CORE+"include/lanelet2_core/primitives/Point.h")])

prop("C04", "Lanelet, area, compound and sequence views reflect their bounds exactly",
 "A lanelet's polygon is its left bound followed by its reversed right bound, inverting a lanelet swaps and reverses its bounds, polygon and centerline, and any setBound call through any handle is immediately reflected in all handles, including the centerline, which has both end points midway between the bounds' ends and lies between the bounds. Compound line strings/polygons and lanelet sequences list exactly the concatenation of their parts with repeated joints collapsed, with indexing, segments, inversion, ids and size consistent with it, and an area's outer and inner bound polygons are the concatenation of its rings.",
 ["inputs","histories"], "Every combination of bounds (any length, shared end points), inversion, order of set/invert/read operations, custom centerlines, and every list of parts for compounds, incl. empty and single-point parts.",
 "Tests check one straight lanelet and one compound; caches, inversion flags and de-duplication interact and go wrong only in specific sequences.",
 [CORE+"src/Lanelet.cpp", CORE+"include/lanelet2_core/primitives/Lanelet.h", CORE+"include/lanelet2_core/primitives/Area.h", CORE+"include/lanelet2_core/primitives/CompoundLineString.h", CORE+"include/lanelet2_core/primitives/CompoundPolygon.h", CORE+"include/lanelet2_core/primitives/LaneletSequence.h", CORE+"src/LaneletSequence.cpp"],
 [("LaneletData caches and resetCache", CORE+"src/Lanelet.cpp"), ("CompoundLineStringData", CORE+"include/lanelet2_core/primitives/CompoundLineString.h")])

prop("C05", "Attributes keep their value under every typed read, write and container op",
 "An attribute created or set from a string, bool, id, int, double or velocity reads back the same value through every typed accessor that can represent it (a failed conversion reports nothing, never a wrong number), independent of which accessors were used before and equally for a fresh attribute with the same text. The attribute map behaves like a plain string-keyed map under every sequence of insert, assign, erase, find, copy, move, swap and clear, with access by predefined attribute enum always agreeing with access by its string name.",
 ["inputs","histories"], "Every value and text, unit spelling and accessor order; every sequence of map operations mixing enum and string keys.",
 "Tests read each type once from a fresh attribute; caching across types and the enum fast path only break for particular read/write/erase orders.",
 [CORE+"src/Attribute.cpp", CORE+"include/lanelet2_core/Attribute.h", CORE+"include/lanelet2_core/utility/HybridMap.h"],
 [("Attribute cache", CORE+"src/Attribute.cpp"), ("HybridMap vector index", CORE+"include/lanelet2_core/utility/HybridMap.h")])

prop("C06", "Distances and projections equal the exact minimum over all segments",
 "The distance from a point to a line string, between two line strings and to/between polygon borders in 2D and 3D equals the minimum over all pairs of segments, project/projectedPoint return points that lie on their respective line strings and realise that distance, and closestSegment returns a segment attaining it. The result does not depend on the representation used (regular, hybrid, basic, compound, inverted, 2D view), on the argument order, or on the number of points.",
 ["inputs"], "All line strings and polygons (2 to several hundred points, parallel, collinear, touching, duplicated or crossing segments, 3D offsets) and all query points.",
 "Tests use a few 3-point lines; the implementation switches algorithm (brute force vs. R-tree) at 50 points and has many degenerate-case branches.",
 [CORE+"src/LineStringGeometry.cpp", CORE+"include/lanelet2_core/geometry/LineString.h", CORE+"include/lanelet2_core/geometry/impl/LineString.h", CORE+"include/lanelet2_core/geometry/impl/Polygon.h", CORE+"include/lanelet2_core/geometry/Point.h"],
 [("projectedPoint*, BruteForce and WithTree", CORE+"src/LineStringGeometry.cpp")])

prop("C07", "Arc coordinates, signed distance and interpolation are mutually consistent",
 "For a simple line string, toArcCoordinates gives the travelled length of the closest point on the line and a lateral distance whose magnitude is the distance to the line and whose sign is positive exactly for points on the left; signedDistance agrees with it and flips sign when the line is inverted. fromArcCoordinates inverts toArcCoordinates for points whose closest point lies inside a segment, interpolatedPointAtDistance/nearestPointAtDistance walk the stated distance (backwards for negative values, clamped at the ends), length ratios accumulate to 1, curvature has the documented sign and value, and align orients two bounds so that left is left of right.",
 ["inputs"], "All non-self-intersecting line strings of 2 to several hundred points (incl. acute corners) and all query points and distances; 2D and 3D.",
 "Tests probe a handful of points near an axis-aligned 3-point line; sign errors happen around acute vertices, beyond the ends, and for long lines where another search algorithm is used.",
 [CORE+"include/lanelet2_core/geometry/impl/LineString.h", CORE+"src/LineStringGeometry.cpp"],
 [("signedDistanceImpl/isLeftOf", CORE+"include/lanelet2_core/geometry/impl/LineString.h"), ("toArcCoordinates/fromArcCoordinates", CORE+"include/lanelet2_core/geometry/impl/LineString.h")])

prop("C08", "Lanelet and area relations match their geometry and shared borders",
 "inside, bounding boxes, lengths, intersects2d/3d, overlaps2d/3d and intersectCenterlines2d of lanelets and areas (and distance2d/distance3d between primitives) agree with the exact geometry of their polygons and centerlines, are symmetric in their arguments and independent of lanelet inversion. leftOf, rightOf, follows, adjacent and the determineCommonLine family hold exactly when the two primitives share the corresponding border or end points in the stated orientation, and return that shared line string.",
 ["inputs","configurations"], "All pairs of lanelets/areas from generated road layouts (neighbouring, following, diverging, crossing, nested, stacked in z, disjoint, inverted) and all query points.",
 "Tests hold about a dozen fixed lanelets; each relation has orientation cases (own/inverted, left/right/front/back) that are only reached by specific layouts.",
 [CORE+"include/lanelet2_core/geometry/impl/Lanelet.h", CORE+"include/lanelet2_core/geometry/impl/Area.h", CORE+"include/lanelet2_core/geometry/impl/Polygon.h", CORE+"include/lanelet2_core/geometry/BoundingBox.h"],
 [("overlaps2d/follows/leftOf", CORE+"include/lanelet2_core/geometry/impl/Lanelet.h"), ("adjacent, determineCommonLine*", CORE+"include/lanelet2_core/geometry/impl/Area.h")])

prop("C09", "Polygon partitions tile the polygon; offset lines keep their distance",
 "convexPartition of a corridor-shaped or convex polygon yields convex parts made of the polygon's own vertices that do not overlap and together cover exactly the polygon, and triangulate of a convex polygon yields triangles over its vertex indices that tile it; fewer than three points raise GeometryError. A line string offset by a distance smaller than its curvature radius lies completely on the requested side at between 1 and sqrt(2) times the requested distance, starts and ends exactly at the perpendicular offset of the end points, has no self-intersection, and offset and offsetNoThrow agree.",
 ["inputs"], "All convex polygons, all corridor polygons (lanelet-like, border sampled densely enough that its edges are Delaunay), all gently bending line strings and offsets of both signs.",
 "Tests partition three hard-coded polygons and offset a few zig-zags; merging of triangles and joining of offset pieces depend on vertex order, turn direction and co-circular points.",
 [CORE+"src/PolygonTriangulationGeometry.cpp", CORE+"include/lanelet2_core/geometry/impl/LineString.h"],
 [("mergeTriangulation/traverse", CORE+"src/PolygonTriangulationGeometry.cpp"), ("extractConvex/joinSubStrings", CORE+"include/lanelet2_core/geometry/impl/LineString.h")])

prop("C10", "Regulatory elements report exactly the roles and parameters they were given",
 "For traffic lights, traffic signs, speed limits, right-of-way, all-way-stop and generic regulatory elements, every sequence of add/set/remove calls leaves the typed getters, the role map (getParameters, find, roles, empty, size), right-of-way manoeuvre classification and the layer/lanelet usage queries in agreement with a simple per-role list model. Regulatory elements built by the factory from a role map and attributes equal those built through their typed constructors, references to lanelets/areas do not keep these alive, and removing one element never disturbs another.",
 ["inputs","histories"], "Every sequence of typed and generic parameter edits on every regulatory element type, with shared, repeated, missing and expired members.",
 "Tests call each setter once; bookkeeping between the several roles and weak references only breaks for particular histories.",
 [CORE+"src/BasicRegulatoryElements.cpp", CORE+"src/RegulatoryElement.cpp", CORE+"include/lanelet2_core/primitives/RegulatoryElement.h", CORE+"include/lanelet2_core/primitives/BasicRegulatoryElements.h", CORE+"src/RegulatoryElementGeometry.cpp"],
 [("findAndErase, role map", CORE+"src/BasicRegulatoryElements.cpp"), ("RegulatoryElementFactory", CORE+"src/RegulatoryElement.cpp")])

prop("C11", "Writing a map to OSM and loading it again yields the same map",
 "Writing any well-formed map with a projector and loading the file again with the same projector gives a map with the same primitives under the same ids, the same topology (which element refers to which, in which order, direction and role), the same attributes and coordinates up to the printed precision (exact through a further cycle), and no reported errors. Writing is deterministic and leaves the written map unchanged, and ids in the loaded map are never handed out again.",
 ["inputs"], "All well-formed maps: every primitive type, arbitrary attribute text (incl. XML special characters and UTF-8), negative and 64-bit ids, shared bounds, inverted usage, areas with holes, regulatory elements with every parameter kind, all writer options.",
 "Tests round-trip one example of each primitive; escaping, ring/bound direction recovery, id handling and reference resolution depend on the combination of elements.",
 [IO+"src/OsmFile.cpp", IO+"src/OsmHandlerLoad.cpp", IO+"src/OsmHandlerWrite.cpp", IO+"src/Io.cpp"],
 [("FromFileLoader", IO+"src/OsmHandlerLoad.cpp"), ("ToFileWriter", IO+"src/OsmHandlerWrite.cpp"), ("osm::read/write", IO+"src/OsmFile.cpp")])

prop("C12", "The binary format reproduces a map bit for bit",
 "Writing any map (or archiving any single primitive) in the binary format and loading it yields an equal object: same ids, attributes, bit-identical coordinates, same sharing of points, line strings and regulatory elements, same inversion flags and custom centerlines, and regulatory elements of the same dynamic type with the same parameters. Ids requested after loading never collide with loaded ones, and the result is independent of the projector.",
 ["inputs"], "All maps, including cyclic references between lanelets and regulatory elements, areas as regulatory element parameters, inverted bounds, empty primitives, and arbitrary doubles and strings.",
 "Tests serialize one small example per type; pointer tracking, load order and inversion flags depend on how elements reference each other.",
 [IO+"include/lanelet2_io/io_handlers/Serialize.h", IO+"src/BinHandler.cpp"],
 [("boost serialization save/load per primitive", IO+"include/lanelet2_io/io_handlers/Serialize.h"), ("BinParser/BinWriter", IO+"src/BinHandler.cpp")])

prop("C13", "Damaged or malformed input never crashes or corrupts the loader",
 "Loading any byte sequence as an OSM map, or a truncated binary map or a file that is no archive as a binary map, either returns a map or throws a lanelet IOError: it never crashes, hangs or touches invalid memory, and an incomplete binary map is never returned. loadRobust on well-formed XML returns a map together with an error list, load throws ParseError exactly when that list is not empty, and malformed XML throws ParseError. Every defect (way without points or with missing points, relation member that does not exist, lanelet without exactly one left and one right border, border or ring member of the wrong kind, ring that is not closed, regulatory element without a subtype, of an unknown subtype or with an unsupported parameter) is reported with the offending id, and every element that does not depend on a defective one is loaded unchanged.",
 ["inputs","fault_sequences"], "All files derived from valid maps by any combination of deleting, duplicating, retyping, re-referencing or truncating elements, attributes and members, and arbitrary bytes.",
 "Tests load one or two hand-broken files; the space of broken references and the order in which partially resolved relations are met is unbounded.",
 [IO+"src/OsmFile.cpp", IO+"src/OsmHandlerLoad.cpp", IO+"src/BinHandler.cpp", IO+"src/Io.cpp"],
 [("OsmFileParser::parserError, resolve of placeholders", IO+"src/OsmFile.cpp"), ("FromFileLoader::getOrGetDummy, parserError", IO+"src/OsmHandlerLoad.cpp")])

prop("C14", "Writing an incomplete map writes all that is there and reports the rest",
 "Writing a map or submap in which lanelets, areas or regulatory elements refer to primitives that are not part of it (or no longer exist) never crashes or hangs: every element that is present is written and can be loaded again with all references among present elements intact, references to absent elements are dropped and reported, and write throws exactly when writeRobust reports an error. No other element's members, order or roles are affected by a dropped one.",
 ["inputs","fault_sequences"], "All subsets of the primitives of all generated maps, including regulatory elements whose parameters are partially absent or expired, in every order of present and absent parameters.",
 "Tests write complete maps only (plus one incomplete lanelet); the removal of missing members works on positions in lists whose order depends on the parameters.",
 [IO+"src/OsmHandlerWrite.cpp", IO+"src/Io.cpp"],
 [("ToFileWriter::removeAndFixPlaceholders, WriteRegulatoryElementVisitor", IO+"src/OsmHandlerWrite.cpp")])

prop("C15", "Projections invert each other and respect their origin and bounds",
 "For every projector, reverse(forward(p)) returns p and forward(reverse(x)) returns x within numerical precision wherever the projection is defined, and the results equal the reference formulas of the projection (WGS84 earth-centred and local east-north-up coordinates including altitude, spherical Mercator scaled at the origin, elliptical Mercator relative to the origin and bounded at the poles, UTM/UPS in the zone and hemisphere of the origin minus the offset); the origin maps to the zero point (UTM with offset, local Cartesian, Mercator), altitude is passed through (relative to the origin for Mercator and local Cartesian) and east is +x, north is +y at the origin. UTM forward succeeds for every point of the zone and (unless told to throw in the padding area) for points up to 100 km beyond the zone's grid, throws ForwardProjectionError for all others, and reverse throws only ReverseProjectionError; copies of projectors behave the same.",
 ["inputs","configurations"], "All origins and points on the globe (incl. zone borders, poles, antimeridian, southern hemisphere), altitudes, and projector options.",
 "Tests check two cities; zone borders, hemispheres and option combinations are not sampled.",
 ["lanelet2_projection/src/UTM.cpp","lanelet2_projection/src/LocalCartesian.cpp","lanelet2_projection/src/Geocentric.cpp", IO+"include/lanelet2_io/Projection.h"],
 [("UtmProjector::forward/reverse", "lanelet2_projection/src/UTM.cpp"), ("SphericalMercatorProjector", IO+"include/lanelet2_io/Projection.h")])

prop("C16", "Passability and direction follow the documented participant and one-way rules",
 "canPass for lanelets and areas, isOneWay, and canPass between two lanelets or areas equal the documented rules for every participant: participant: tags replace the subtype defaults and the one that names the participant or a generalisation of it decides (none: not passable), a lanelet is passable in reverse exactly if it is not one-way for the participant (one_way tags override in general or per participant, pedestrians default to both directions), and passing between primitives additionally requires both to be passable, to follow or touch each other, and (areas) a common border that permits crossing it in this direction, with virtual borders permitting it by default. The result depends only on the tags and orientation of the primitives involved, and hasDynamicRules holds exactly if a regulatory element affects them dynamically.",
 ["inputs","configurations"], "All combinations of subtype, location, participant and one-way tags and values, orientations, lanelet/area adjacency and all participants of the German and generic rules.",
 "Tests cover a dozen tag combinations; the override resolution is a product of subtype, participant hierarchy and tag order.",
 [TR+"src/GenericTrafficRules.cpp", TR+"src/GermanTrafficRules.cpp", TR+"src/TrafficRulesFactory.cpp", TR+"include/lanelet2_traffic_rules/TrafficRules.h"],
 [("GenericTrafficRules::canPass/isOneWay, hasOverride/getOverride", TR+"src/GenericTrafficRules.cpp")])

prop("C17", "Lane changes are allowed exactly where the shared marking permits them",
 "canChangeLane between two lanelets is true exactly if both are passable, they share a border in matching orientation and that border permits crossing in that direction for the participant (vehicles: dashed lines, on the dashed side only for mixed ones; pedestrians: low curbstones; bicycles: both), where explicit lane_change tags (overall or left and right) take precedence over the marking type/subtype table, and the marking is interpreted relative to its direction of use. Mirroring the scene, inverting the shared line string's stored direction (with mirrored tags) or inverting both lanelets gives the mirrored answer.",
 ["inputs","configurations"], "All line types/subtypes, lane_change overrides, orientations of the stored border, lanelet inversions, participants and neighbour configurations.",
 "Tests enumerate a few markings in one orientation; the table is a product of type, direction, inversion and participant.",
 [TR+"src/GenericTrafficRules.cpp"],
 [("canChangeLane, getChangeType, getHardcodedChangeType", TR+"src/GenericTrafficRules.cpp")])

prop("C18", "Speed limits follow tags, regulatory elements and country defaults",
 "speedLimit of a lanelet or area is, in order of precedence, the limit of the speed-limit regulatory element that applies to it, its speed_limit tag for the participant or in general (0 if neither is given but others are), or the country default for its location, subtype and participant, with the units converted correctly and the mandatory flag taken from the tags. The result depends only on the element's own tags and regulatory elements and is identical for a lanelet and its inverse, and querying never alters the map.",
 ["inputs","configurations"], "All combinations of location, subtype, participant, speed_limit tags with every supported unit spelling, sign types and speed limit regulatory elements.",
 "Tests cover fixed pairs of tags and sign types; precedence and unit parsing form a product space.",
 [TR+"src/GenericTrafficRules.cpp", TR+"src/GermanTrafficRules.cpp", CORE+"src/Attribute.cpp", CORE+"include/lanelet2_core/utility/Units.h"],
 [("GenericTrafficRules::speedLimit, trafficSignToVelocity", TR+"src/GenericTrafficRules.cpp, "+TR+"src/GermanTrafficRules.cpp")])

prop("C19", "The routing graph contains exactly the relations the map and rules imply",
 "For every passable lanelet and area (and the inverse of every lanelet passable in both directions) the graph's following, previous, left(s), right(s), adjacentLeft(s), adjacentRight(s), besides, routingRelation and the various *Relations queries equal what map topology and traffic rules imply: successors share end points and may be passed, neighbours share a border, are routable when the lane change is allowed and adjacent otherwise; nothing else is related, and not-passable or foreign lanelets yield empty answers. Forward and backward queries agree (b in following(a) iff a in previous(b); left/right are inverse), passableSubmap contains exactly the passable primitives, checkValidity finds no error, and the answers do not depend on element order, cost function choice or repeated construction.",
 ["inputs","configurations"], "All generated road networks (parallel lanes, splits, merges, opposite directions, bidirectional lanes, areas, mixed participants), participants, cost functions and query lanelets.",
 "Tests use a single hand-made network with fixed expectations; relation building depends on neighbourhood, inversion and traversal order.",
 [RT+"src/RoutingGraphBuilder.cpp", RT+"src/RoutingGraph.cpp", RT+"include/lanelet2_routing/internal/Graph.h"],
 [("RoutingGraphBuilder::addEdges/addSidewayEdge", RT+"src/RoutingGraphBuilder.cpp"), ("RoutingGraph queries", RT+"src/RoutingGraph.cpp")])

prop("C20", "Shortest paths are valid, optimal and found whenever one exists",
 "shortestPath, shortestPathVia, the including-areas variants and getRoute return a path that starts and ends at the requested primitives, visits the via points in order, only uses successor and (if allowed) lane change edges of the graph, and whose total cost is the minimum over all such paths; they return nothing exactly if no path exists. Costs are those of the selected cost function (length or travel time plus lane change costs and minimum lane change length), and the answer is consistent between graph objects and repeated calls.",
 ["inputs","configurations"], "All generated networks, start/end/via choices, cost functions, lane change settings.",
 "Tests compare a few fixed paths by lanelet count; optimality quantifies over all alternative paths.",
 [RT+"src/RoutingGraph.cpp", RT+"src/RoutingCost.cpp", RT+"include/lanelet2_routing/internal/ShortestPath.h"],
 [("DijkstraStyleSearch / boost dijkstra", RT+"include/lanelet2_routing/internal/ShortestPath.h"), ("RoutingCostDistance/TravelTime", RT+"src/RoutingCost.cpp")])

prop("C21", "Reachable sets and possible paths are complete, sound and cost-ordered",
 "reachableSet and reachableSetTowards (and their including-areas variants) return exactly the primitives whose minimum routing cost from/to the query is within the limit, including the query itself; possiblePaths and possiblePathsTowards return exactly the cost-minimal paths that reach the requested cost or element limits under the given parameters, each a valid path in the graph and none a prefix of another unless shorter paths were requested. forEachSuccessor/forEachPredecessor visit every reachable primitive exactly once in order of non-decreasing minimal cost, with correct cost, length, predecessor and lane change count, and do not expand beyond elements the callback rejects.",
 ["inputs","configurations"], "All generated networks, query primitives, cost/element limits, lane change and area settings, cost functions.",
 "Tests check a few sets on one network; completeness and minimality quantify over all paths of the graph.",
 [RT+"src/RoutingGraph.cpp", RT+"include/lanelet2_routing/internal/ShortestPath.h"],
 [("DijkstraStyleSearch, buildPath, possiblePathsImpl", RT+"include/lanelet2_routing/internal/ShortestPath.h, "+RT+"src/RoutingGraph.cpp")])

prop("C22", "Conflicts are reported exactly for overlapping non-neighbouring passable lanes",
 "conflicting(x) in a routing graph contains exactly the passable lanelets and areas that overlap x (in 2D, or in 3D when a participant height is configured) without being its routing neighbours or successors, never x itself, and the relation is symmetric between lanelets. A RoutingGraphContainer reports for every lanelet, graph and height exactly the overlapping lanelets of the requested other participants' graphs, for routes exactly those conflicting with any of the route's lanelets, and routingRelation only yields Conflicting if asked to include it.",
 ["inputs","configurations"], "All generated crossing/merging/stacked layouts, participant combinations, heights.",
 "Tests use one fixed crossing; candidates come from a spatial index and are filtered by several geometric and relational conditions.",
 [RT+"src/RoutingGraphBuilder.cpp", RT+"src/RoutingGraphContainer.cpp", RT+"src/RoutingGraph.cpp", RT+"include/lanelet2_routing/RoutingGraphContainer.h"],
 [("RoutingGraphBuilder::addConflictingEdge", RT+"src/RoutingGraphBuilder.cpp"), ("conflictingInGraph", RT+"src/RoutingGraphContainer.cpp")])

prop("C23", "A route is a consistent corridor around its shortest path",
 "A route contains every lanelet of its shortest path, and contains another lanelet only if it is connected to the path by lane changes or leads from and back onto the route; contains, size, laneletSubmap, following/previous/left/right relations and successor visiting agree with one another and with the routing graph restricted to the route. Lanes partition the route's lanelets, fullLane and remainingLane are successor chains that begin and end where lanes fork, merge or end, remainingShortestPath is the suffix of the shortest path, conflictingInRoute/conflictingInMap equal the graph's conflicts restricted accordingly, length is the path length, checkValidity reports nothing, and queries for foreign lanelets return nothing.",
 ["inputs","configurations"], "All routes between all pairs of primitives (with via points, with and without lane changes) of all generated networks, and all query lanelets on and off the route.",
 "Tests check a few routes of one network; the route builder explores neighbours iteratively and its result depends on the local layout everywhere along the path.",
 [RT+"src/Route.cpp", RT+"src/RouteBuilder.cpp", RT+"src/LaneletPath.cpp", RT+"include/lanelet2_routing/Route.h"],
 [("RouteBuilder", RT+"src/RouteBuilder.cpp"), ("Route queries", RT+"src/Route.cpp")])

prop("C24", "Matching returns exactly the lanelets near the object, correctly ranked",
 "Deterministic matching returns for every object exactly the lanelets (both directions each) whose distance to the object's hull is within the given bound, sorted by that distance with the correct value; probabilistic matching returns the same candidates sorted by Mahalanobis distance computed from the lanelet's closest direction, the state and the covariance, and throws on degenerate covariances. Removing non-rule-compliant matches keeps exactly those lanelets the traffic rules allow to be passed, in order, and all results are the same for const and mutable maps and unaffected by the rest of the map.",
 ["inputs","configurations"], "All maps, object poses, hulls, covariances and radii.",
 "Tests match two objects on one map; ranking and candidate selection are numeric and depend on pose and layout.",
 ["lanelet2_matching/src/LaneletMatching.cpp","lanelet2_matching/src/Utilities.cpp"],
 [("getDeterministicMatches/getProbabilisticMatches", "lanelet2_matching/src/LaneletMatching.cpp"), ("getMahalanobisDistSq", "lanelet2_matching/src/Utilities.cpp")])

prop("C25", "Validators flag exactly the defective primitives and the filter selects them",
 "Each shipped validator reports an issue for a primitive, with that primitive's id, type and severity, exactly if the primitive has the defect it looks for (duplicate consecutive points, points closer than 5 cm, curvature above 0.5, missing mandatory tags, unknown tags, unknown tag values, non-boolean flags, invalid routing graph) and is silent otherwise. The filter string runs exactly the validators whose name fully matches one of its comma separated expressions (all when empty), the report groups and counts their issues faithfully, and validating never changes the map.",
 ["inputs","configurations"], "All maps with any combination of injected defects, all filter strings.",
 "Tests run the tool on one map; each check is a predicate over arbitrary attributes and geometry.",
 ["lanelet2_validation/src/Validation.cpp","lanelet2_validation/src/ValidatorFactory.cpp","lanelet2_validation/src/validators/CheckTags.cpp","lanelet2_validation/src/validators/PointsTooClose.cpp","lanelet2_validation/src/validators/DuplicatedPoints.cpp","lanelet2_validation/src/validators/CurvatureTooBig.cpp"],
 [("validators", "lanelet2_validation/src/validators/*.cpp"), ("regexVector/validatorFilter", "lanelet2_validation/src/ValidatorFactory.cpp")])

prop("C26", "Concurrent reads of a shared map are race free and give sequential results",
 "Any number of threads reading the same primitives, maps and routing graphs at the same time (attributes through any typed accessor, 2D and 3D coordinates, centerlines, polygons, layer searches, regulatory elements, routing queries, id requests) perform no data race or use of freed memory, and every read returns what it returns in a single-threaded run. Ids requested concurrently are all distinct.",
 ["schedules","inputs"], "All sets of concurrent read programs over shared objects and all thread schedules.",
 "No test starts a second thread; lazily filled caches are written from const accessors, so only particular interleavings collide.",
 [CORE+"src/Attribute.cpp", CORE+"src/Lanelet.cpp", CORE+"include/lanelet2_core/primitives/Point.h", CORE+"include/lanelet2_core/primitives/LaneletSequence.h", CORE+"src/LaneletMap.cpp", RT+"src/RoutingGraph.cpp"],
 [("Attribute::load/store atomic cache", CORE+"src/Attribute.cpp"), ("LaneletData::centerline atomic cache", CORE+"src/Lanelet.cpp"), ("utils::getId atomic", CORE+"src/LaneletMap.cpp")])

prop("C27", "The Python bindings expose the same behaviour as the C++ library",
 "For every sequence of operations available in the Python module (creating and editing primitives, attributes, maps and layers, regulatory elements, reading/writing files, projections, geometry, traffic rules, routing and matching) the values observed from Python equal those implied by the documented object model: shared identity, inversion, attribute dictionaries, list semantics of line strings, None for absent optionals and Python exceptions for errors. Objects stay valid for as long as Python refers to them, exceptions pass through callbacks and Python cost classes, repr describes the current state, and const classes offer no geometry-modifying methods.",
 ["inputs","histories"], "Every sequence of Python calls on generated objects.",
 "Python tests hold one example per class; converters, call policies and lifetimes are exercised by combinations.",
 ["lanelet2_python/python_api/core.cpp","lanelet2_python/python_api/geometry.cpp","lanelet2_python/python_api/io.cpp","lanelet2_python/python_api/routing.cpp","lanelet2_python/python_api/traffic_rules.cpp","lanelet2_python/python_api/projection.cpp","lanelet2_python/python_api/matching.cpp","lanelet2_python/include/lanelet2_python/internal/converter.h"],
 [("Boost.Python class_ definitions and converters", "lanelet2_python/python_api, lanelet2_python/include/lanelet2_python/internal")])

prop("C28", "The enclosing polygon of a path is the outline of its elements",
 "For every path of lanelets and areas in which neighbours share exactly one border (start to end, end to start, left, right, or a line string of an area) and no element is left where it was entered, getEnclosingPolygon3d has exactly the edges of the elements' clockwise outlines without the borders shared by neighbours, in the same direction. Every point of it belongs to an element, a single element gives its bounding polygon and an empty path an empty polygon.",
 ["inputs"], "All paths of any length and mixture of lanelets (in both views) and areas.",
 "The direction in which an element is entered and left, the kind of both neighbours and the number of line strings of an area multiply; tests cover a few straight paths.",
 [RT+"src/LaneletPath.cpp", RT+"include/lanelet2_routing/LaneletPath.h"],
 [("getEnclosingPolygon3d", RT+"src/LaneletPath.cpp")])

prop("C29", "Graph exports and debug maps hold exactly the routing graph",
 "For every routing graph, cost module and choice of relations, exportGraphML, exportGraphViz and getDebugLaneletMap yield one vertex per passable element (the debug map one point per id at the centroid) and exactly the edges of the graph for that cost module with a chosen relation, each with its type, its direction (in the debug map also as the reverse of the other direction) and its cost. An empty file name, a cost module that does not exist or a file that can not be opened is an error.",
 ["inputs","configurations"], "All maps, cost modules and sets of relations.",
 "Tests check that exporting does not fail; what the files and the map contain depends on both directions, all cost modules and the filter.",
 [RT+"include/lanelet2_routing/internal/RoutingGraphVisualization.h", RT+"src/RoutingGraph.cpp"],
 [("exportGraphMLImpl/exportGraphVizImpl", RT+"include/lanelet2_routing/internal/RoutingGraphVisualization.h"), ("DebugMapBuilder", RT+"src/RoutingGraph.cpp")])

prop("C30", "Maps are read and written by the handler registered for them",
 "load and write call exactly the parser or writer that is registered for the given name, or else for the extension of the file name, once, with the file name, the projector (or a default projection with the given origin), the configuration and the map. An unknown name, an unknown extension or a missing file is its own kind of error and calls no handler; messages of the handler are handed out, or thrown as ParseError or WriteError if nobody asks for them, and its exceptions pass through.",
 ["inputs","configurations"], "All names, extensions, file names, origins, projectors, configurations and registered handlers.",
 "Eight overloads, two registries and user handlers multiply; tests use the two built-in handlers.",
 ["lanelet2_io/src/Io.cpp", "lanelet2_io/src/Factory.cpp", "lanelet2_io/include/lanelet2_io/io_handlers/Factory.h", "lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h"],
 [("load/write", "lanelet2_io/src/Io.cpp"), ("ParserFactory/WriterFactory", "lanelet2_io/src/Factory.cpp")])

prop("C31", "Bounding boxes are tight and follow interval algebra",
 "The bounding box of a point, line string, polygon, lanelet, area or regulatory element of any kind, view or direction is exactly the smallest axis aligned box around its points, and empty if there are none. Extending, merging, clamping, intersecting, moving and converting boxes, and asking a box for containment, intersection, corners or distances, agrees with interval arithmetic per axis, also for empty and degenerate boxes.",
 ["inputs","histories"], "All primitives and all histories of operations on boxes.",
 "Spatial layers and all distance queries rely on boxes that are tight for all kinds of primitives; tests look at a few.",
 ["lanelet2_core/include/lanelet2_core/primitives/BoundingBox.h", "lanelet2_core/include/lanelet2_core/geometry/BoundingBox.h", "lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h", "lanelet2_core/include/lanelet2_core/geometry/impl/Area.h", "lanelet2_core/src/RegulatoryElementGeometry.cpp"],
 [("boundingBox2d/boundingBox3d", "lanelet2_core/include/lanelet2_core/geometry/BoundingBox.h"), ("BoundingBox2d", "lanelet2_core/include/lanelet2_core/primitives/BoundingBox.h")])

prop("C32", "Handles compare, hash, print and wrap by what they refer to",
 "Two handles of points, line strings, polygons, lanelets, areas, compounds, sequences, paths, or wrappers of these (2d, const, hybrid and weak forms included) are equal exactly if they refer to the same objects in the same direction, != is the negation, equal handles hash equally, and unordered containers hold one element per distinct object; expired weak handles equal nothing. A wrapper that holds a lanelet or an area, or a line string or a polygon, reports after any assignments the kind, identity, attributes, regulatory elements and bounding polygon of what it holds, compounds of compounds equal the compound of all parts, and the printed text of a primitive names its ids in order and its direction.",
 ["inputs","histories"], "All pairs of handles in a map, also of different primitives with the same id, and all histories of assignments to wrappers.",
 "Every container, search and graph of the library keys on these; tests compare a few handles.",
 ["lanelet2_core/include/lanelet2_core/primitives/LineString.h", "lanelet2_core/include/lanelet2_core/primitives/Lanelet.h", "lanelet2_core/include/lanelet2_core/primitives/Area.h", "lanelet2_core/include/lanelet2_core/primitives/LaneletOrArea.h", "lanelet2_core/include/lanelet2_core/primitives/LineStringOrPolygon.h", "lanelet2_core/include/lanelet2_core/primitives/CompoundLineString.h", "lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h"],
 [("operator==, HashBase", "lanelet2_core/include/lanelet2_core/primitives/Primitive.h"), ("ConstLaneletOrArea", "lanelet2_core/include/lanelet2_core/primitives/LaneletOrArea.h"), ("LineStringOrPolygon3d", "lanelet2_core/include/lanelet2_core/primitives/LineStringOrPolygon.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
