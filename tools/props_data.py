prop("C01", "Angle arithmetic is correct modulo one turn",
 "For every pair of finite angles, wrapping gives the equivalent angle in [0, 2*pi); the difference of two angles is the smallest rotation between them, symmetric and in [0, pi]; and the average lies on the shorter arc at the same distance from both. Unwrapping a value or a sequence of angles gives angles equivalent to the inputs, each within half a turn of its predecessor.",
 ["inputs"], "all finite angles, including negative, multi-turn and boundary values (multiples of pi/2, values next to 0 and 2*pi)",
 "Tests sample about a dozen angles; the laws quantify over all pairs and sequences, and the breakable cases are at the wrap-around.",
 [T+"Geometry.h", T+"Geometry_impl.hpp"],
 [("mod_2pi / mod", T+"Geometry_impl.hpp"), ("getAngleDiffAbs, getAngleAvg, getAngContinuity", T+"Geometry_impl.hpp")],
 ["return values of the static angle functions"])
prop("C02", "Points obey vector algebra and plane geometry",
 "For all points, sums, differences, scaling, dot product and comparison act component-wise; rotating about a centre preserves the distance to it and turns by exactly the given angle; polar steps, headings and turning angles agree with trigonometry. The closest point of a segment is the nearest of all its points, the intersection of two non-parallel lines lies on both, and the signed distance to a line has the right magnitude and is positive on one side, negative on the other.",
 ["inputs"], "all points with finite coordinates, segments with distinct ends, non-parallel lines, any angle",
 "Tests use a handful of hand-picked points, mostly on the axes.",
 [T+"Point.h", S+"Point.cpp"],
 [("operators, rotateFromPoint, getPointFromAngle, getAngleFromPoint(s)", S+"Point.cpp"), ("closestPointInSegment, intersectionOfLines, signedDistance2Segment", S+"Point.cpp")],
 ["returned points, angles and distances"])
prop("C03", "Geometry collections behave like the sequences they hold",
 "After any history of adding, setting, reading, iterating, scaling, translating, rotating and reversing, a point set, line, ring, multi-line, polygon or multi-polygon holds exactly the elements, in the order, that a plain list would hold, and its length, area, bounding box and end points are those of that list. Reading an index that is not present is rejected with an error; setting one is rejected or extends the collection up to it; neither changes the elements already there. A child that is only read can be modified without changing its collection.",
 ["histories"], "all histories of container operations over all six collection types, including empty collections and out-of-range indices",
 "Tests exercise one fixed short sequence per method; interactions of operations are not sampled.",
 [T+"Geometries.h", T+"Geometries_impl.hpp", S+"MultiPoint.cpp", S+"LineString.cpp", S+"LinearRing.cpp", S+"MultiLineString.cpp", S+"Cell.cpp", S+"Cells.cpp"],
 [("getGeometry / setGeometry / addGeometry / operator* / iterators", T+"Geometries.h and each type"), ("length, area, startPoint, endPoint, reverse, getDim*", "each type")],
 ["element reads, size, length, area, thrown errors"])
prop("C04", "Clones are equal and independent; moving and storing keep objects unchanged",
 "Cloning any geometry, swath, swath list, route or field gives an object equal to the original in every attribute a caller can read (coordinates to printing precision, widths, ids, types, directions, names, coordinate systems, reference points). Afterwards no modification of one of the two is visible through the other. Lists of objects that are swapped, reversed, rotated, inserted in, erased from, moved or assigned hold the same objects, unchanged, in the order a list of plain values would have.",
 ["histories"], "every value type of the library, any content including empty, followed by any modification of either copy",
 "Tests clone one or two fixed objects and look at some attributes only.",
 [T+"Geometry.h", S+"Swath.cpp", S+"Swaths.cpp", S+"SwathsByCells.cpp", S+"Route.cpp", S+"Field.cpp", S+"Cell.cpp", S+"Cells.cpp", S+"Strip.cpp"],
 [("clone()", "each type")], ["all getters of both objects"])
prop("C05", "Text forms of geometries are faithful",
 "Exporting any geometry as WKT and importing the text gives the same geometry (same structure and order, coordinates to printing precision), and the JSON and GML exports list the same coordinates in the same order. Importing replaces the earlier content of the object completely.",
 ["inputs"], "all geometries of every type, including empty ones, polygons with holes and 3D points, coordinates up to UTM magnitude",
 "Tests round-trip two fixed strings.",
 [T+"Geometry_impl.hpp"], [("exportToWkt / importFromWkt / exportToJson / exportToGML", T+"Geometry_impl.hpp")],
 ["exported strings, geometry after import"])
prop("C06", "Boolean operations on cells are exact set operations",
 "The union, intersection and difference of cells, and the convex hull, contain exactly the points that the set operation says (away from the borders), so their areas obey inclusion-exclusion; the operands are left unchanged, also when a result is changed later. Splitting results into separate cells loses no part and duplicates none.",
 ["inputs"], "all valid polygons and multi-polygons: convex, concave, with holes, disjoint, overlapping, nested or identical, either ring orientation",
 "Tests use two or three squares; the result type (polygon, multi-polygon, lower dimensional, empty) depends on the inputs.",
 [S+"Cells.cpp", S+"Cell.cpp", T+"Geometry_impl.hpp"],
 [("intersection, difference, unionOp, unionCascaded, convexHull", S+"Cells.cpp, "+S+"Cell.cpp")],
 ["membership of sample points, areas, operands after the call"])
prop("C07", "Spatial queries give the true geometric answer",
 "For every pair of cells, lines and points (single ones or several), distances, inside/border tests, the relations disjoint, intersects, within, touches and crosses, the closest point on the border, the lookup of the cell that contains a point, and the bounding box agree with plane geometry (linear rings excepted, for which they are declined). A cell without holes is called convex exactly if all its interior angles are at most 180 degrees, whatever vertex or direction its ring starts with, and cells only if they are a single convex one.",
 ["inputs"], "all valid polygons, with or without holes, in either orientation and starting at any vertex; query points and lines anywhere",
 "Tests ask a few questions about one square.",
 [S+"Cell.cpp", S+"Cells.cpp", T+"Geometry_impl.hpp", S+"LineString.cpp", S+"LinearRing.cpp", S+"MultiPoint.cpp"],
 [("isPointIn, isPointInBorder, isConvex, closestPointOnBorderTo, getCellWherePoint", S+"Cell.cpp, "+S+"Cells.cpp"), ("distance, disjoint, crosses, touches, within, intersects, getDim*", T+"Geometry_impl.hpp")],
 ["return values of the queries"])
prop("C08", "Buffers grow and shrink by the requested distance",
 "Buffering a cell, line, ring or point outwards by d covers every point within d of its sides (mitred corners keep their whole tip up to five times d, line ends are flat, a one-sided buffer covers only its side) and nothing further than the mitred corners allow, and buffering several lines or points covers what one of them covers; buffering cells inwards keeps only points at least d from the border and keeps every point that is clearly further in. The result's area is monotone in d, a result in several parts is rejected where a single cell is asked for, and the argument is left unchanged.",
 ["inputs"], "all valid cells, lines, rings and points and all distances, including those that make the result empty or split it",
 "Tests check four areas on fixed shapes.",
 [S+"Cell.cpp", S+"Cells.cpp", T+"Geometry_impl.hpp"],
 [("Cell::buffer / Cells::buffer overloads, OGRBuffer", S+"Cell.cpp, "+S+"Cells.cpp, "+T+"Geometry_impl.hpp")],
 ["membership of sample points in the result, area"])
prop("C09", "Headlands keep the requested distance from every border",
 "The mainland left after generating headlands of width w contains only points of the field at least w away from every border, holes and each cell included, and contains every field point that is clearly further in; cells too small for the headland vanish. The headland rings for n swaths of width w lie at (i+1/2)*w inside the border for i = 0..n-1; made from the inside, the first one lies at (n-1/2)*w and each further one is one width around the previous, but no ring comes closer to the border than its distance. The matching mainland is the one for a headland n*w wide.",
 ["inputs"], "all fields of one or more cells, with or without holes, all widths (negative widths grow the field) and swath counts",
 "Tests look at the area of three random convex pentagons.",
 [M+"headland_generator/constant_headland.cpp", "include/fields2cover/headland_generator/headland_generator_base.h", S+"Cells.cpp"],
 [("ConstHL::generateHeadlands, generateHeadlandSwaths, generateHeadlandArea", M+"headland_generator/constant_headland.cpp")],
 ["returned cells, rings and areas"])
prop("C10", "Lines clipped to a field are exactly its chords",
 "The part of a line or set of lines inside a cell or cells is complete and exact: all pieces of the line within the region, no others, also when the line touches a corner, runs along an edge or crosses holes. A line drawn from a point in a direction until the border starts at the point, follows the direction and ends where it first meets the border (from the border itself: nothing if it leaves the cell at once); long lines through a region reach across it at the requested angle.",
 ["inputs"], "all valid regions; lines in any position, including through vertices and along edges; interior and exterior start points; all angles",
 "Tests use one square and axis-parallel lines; degenerate contacts change the type of the intersection result.",
 [S+"Cell.cpp", S+"Cells.cpp", S+"MultiLineString.cpp"],
 [("getLinesInside, createSemiLongLine, createStraightLongLine, createLineUntilBorder", S+"Cell.cpp, "+S+"Cells.cpp"), ("MultiLineString::append / getLineSegments", S+"MultiLineString.cpp")],
 ["returned lines"])
prop("C11", "Splitting cells by lines partitions them",
 "Splitting cells by any lines gives cells that lie inside the original, do not overlap and together cover it, holes preserved. None of the parts is crossed by a splitting line that went all the way through the cell; lines that do not cross a cell leave it whole, and the number of parts for straight cuts of a convex cell is the number of regions the cuts make.",
 ["inputs"], "all valid fields (concave, holes, several cells) and all sets of splitting lines: crossing, partial, outside, touching, repeated",
 "Tests cut one square with one or two fixed lines.",
 [S+"Cells.cpp", S+"Cell.cpp"], [("splitByLine(s)", S+"Cells.cpp, "+S+"Cell.cpp")],
 ["returned cells: areas, membership, crossings"])
prop("C12", "Decompositions partition the field",
 "Trapezoidal and boustrophedon decomposition of any field return cells that lie in the field, do not overlap and together cover it, at every split angle, and merging changes neither. For split directions not parallel to a side, trapezoidal cells are convex, and a convex field is never cut into parts that a convex field does not need by boustrophedon decomposition; rotating field and split angle together gives the same pieces rotated, and neither the starting vertex nor the direction in which outlines are written matters.",
 ["inputs"], "all fields with one or more cells, concave or with holes, and all split angles",
 "Tests decompose one random field at one angle and count the parts.",
 [M+"decomposition/decomposition_base.cpp", M+"decomposition/trapezoidal_decomp.cpp", M+"decomposition/boustrophedon_decomp.cpp"],
 [("decompose, genSplitLines, split, merge", M+"decomposition/*")],
 ["returned cells and split lines"])
prop("C13", "Generated swaths are the complete set of parallel tracks",
 "For any field, width w and angle, the generated swaths are the field's chords along that angle, spaced exactly w apart and starting half a width from the field's edge: each swath is straight, has the requested direction, lies in the field and spans a whole chord, and no chord of the pattern is missing or duplicated. Swaths carry width w and consecutive ids from 0 in order of their position, and several cells give one group per cell in cell order.",
 ["inputs"], "all fields: convex, concave, with holes, several cells, any ring orientation and position; all widths and angles, including lines that touch corners or run along edges",
 "Tests generate swaths on random convex cells and check only their angle and count.",
 [M+"swath_generator/swath_generator_base.cpp", S+"Swaths.cpp", S+"MultiLineString.cpp", S+"Cell.cpp"],
 [("SwathGeneratorBase::generateSwaths", M+"swath_generator/swath_generator_base.cpp"), ("Swaths::append", S+"Swaths.cpp")],
 ["returned swaths: path, width, id, type"])
prop("C14", "The best-angle search really returns the cheapest angle",
 "For every objective, the angle chosen by the exhaustive search has a cost not worse than that of any angle on the search grid, for maximising objectives as for minimising ones, and the returned swaths are those of the chosen angle. Repeating the call gives the same angle and swaths.",
 ["inputs", "configurations"], "all fields, widths, step sizes and objectives",
 "Tests run one step size with one objective and check that something is returned.",
 [M+"swath_generator/brute_force.cpp", "include/fields2cover/swath_generator/brute_force.h", M+"swath_generator/swath_generator_base.cpp"],
 [("BruteForce::computeBestAngle, computeCostOfAngle, generateBestSwaths", M+"swath_generator/brute_force.cpp")],
 ["returned angle and swaths, objective costs"])
prop("C15", "Swath objectives measure what they name",
 "The number of swaths, the total swath length, the fraction of the field covered by the swaths and the overlap (sum over all pairs of swaths of the shared area divided by the field area) equal the values computed from first principles, do not depend on the order of the swaths, and the approximate swath count of a polygon is the one given by its edges' extent across the swath direction. Every cost with minimising sign is the cost, negated exactly for maximised objectives.",
 ["inputs"], "all fields, all sets of swaths (overlapping, disjoint, outside the field, duplicated, one or none)",
 "Tests use three parallel swaths on a square.",
 [M+"objectives/sg_obj/overlaps.cpp", M+"objectives/sg_obj/field_coverage.cpp", M+"objectives/sg_obj/n_swath.cpp", M+"objectives/sg_obj/n_swath_modified.cpp", M+"objectives/sg_obj/swath_length.cpp", M+"objectives/sg_obj/sg_objective.cpp", "include/fields2cover/objectives/base_objective.h"],
 [("computeCost overloads, computeCostWithMinimizingSign", M+"objectives/sg_obj/*")],
 ["returned costs"])
prop("C16", "Headland and route objectives measure what they name",
 "The remaining-area cost is the share of the field's area left after the headlands. The direct-distance cost of swaths, of connections and of whole routes is the sum of the straight-line steps between consecutive way points in travel order, so each overload agrees with the cost of the equivalent point sequence, and with the length of the route where both are defined.",
 ["inputs"], "all fields and mainlands; all routes, swath sequences and point sequences, including empty ones and groups without swaths",
 "Tests compute the cost of two or three fixed swaths.",
 [M+"objectives/hg_obj/rem_area.cpp", M+"objectives/hg_obj/hg_objective.cpp", M+"objectives/rp_obj/rp_objective.cpp", M+"objectives/rp_obj/direct_dist_path_obj.cpp", "include/fields2cover/objectives/rp_obj/rp_objective.h"],
 [("computeCost overloads", M+"objectives/rp_obj/rp_objective.cpp")],
 ["returned costs"])
prop("C17", "A swath keeps its geometry through every operation",
 "Under any history of reversals and alignments a swath keeps its path as a set of points, its width, id, type, length and covered area; reversing exchanges start and end, turns the headings by half a turn and flips its direction flag, and twice restores it. Aligning a swath makes its direction equal or opposite to the other's as asked, < and > order swaths by id, <= and >= add equality at equal ids, == and != are opposite, symmetric and recognise the same track driven in either direction, and the covered area is the strip of the swath's width along its path.",
 ["histories", "inputs"], "all swaths (two or more points, any width, any type) and all sequences of operations on them",
 "Tests use six fixed swaths.",
 [T+"Swath.h", S+"Swath.cpp"],
 [("reverse, hasSameDir, targetSameDirAs, targetOppositeDirAs, operators, areaCovered, getInAngle, getOutAngle", S+"Swath.cpp")],
 ["getters after each operation"])
prop("C18", "Swath lists behave like the lists they hold",
 "After any history of appending swaths, lines clipped to a region, other lists, sorting, reversing and iterating, a list of swaths (and a list of lists, per cell) holds exactly the swaths and order that a plain list would, flattening and totals agree with the parts, and out-of-range access is rejected. Alternating directions along a list of equally directed swaths makes neighbours opposite and changes no swath otherwise.",
 ["histories"], "all histories of operations on swath lists and per-cell swath lists",
 "Tests push and sort one list of ten swaths.",
 [S+"Swaths.cpp", S+"SwathsByCells.cpp", T+"Swaths.h", T+"SwathsByCells.h"],
 [("emplace_back, push_back, append, sort, reverse, reverseDirOddSwaths, flatten, getSwath, sizeTotal", S+"Swaths.cpp, "+S+"SwathsByCells.cpp")],
 ["elements, sizes, ids after each operation"])
prop("C19", "A route is the alternation of connections and swath groups it was built from",
 "After any history of adding and setting connections and swaths, a route holds exactly those, in order; its start, end, length and line form are those of the polyline that follows connection, swaths, connection, and so on, skipping empty parts. The total number of swaths and the swath length are those of the parts, and a copy taken earlier does not change with the route.",
 ["histories"], "all histories of route-building operations, including empty groups and connections",
 "Tests build one route.",
 [T+"Route.h", S+"Route.cpp"],
 [("addConnection, addSwaths, addConnectedSwaths, setConnection, setSwaths, length, startPoint, endPoint, asLineString, isValid, isEmpty", S+"Route.cpp")],
 ["getters and derived geometry after each operation"])
prop("C20", "Order patterns visit every swath once in the named pattern",
 "For every number of swaths and each of the four start variants, boustrophedon, snake and spiral orders return a permutation of the input (each swath once, otherwise unchanged) in which consecutive swaths of a generated field are driven in opposite directions. Boustrophedon goes from one side to the other, snake goes out on every second swath and back on the rest, a spiral of size n works inwards in groups of n (the last group may be smaller, and a group starting at an odd position starts from its far swath); the variants are the pattern from the other side and with directions flipped, they repeat with period four, and the input list is not modified.",
 ["inputs", "configurations"], "all swath lists of any length (none and one included), all variants and spiral sizes",
 "Tests use lists of 10, 12 or 99 swaths.",
 [M+"route_planning/boustrophedon_order.cpp", M+"route_planning/snake_order.cpp", M+"route_planning/spiral_order.cpp", M+"route_planning/single_cell_swaths_order_base.cpp", S+"Swaths.cpp"],
 [("genSortedSwaths, sortSwaths, changeStartPoint", M+"route_planning/*")],
 ["returned swaths: ids and directions; input after the call"])
prop("C21", "A custom order is applied exactly or rejected",
 "For a non-empty list of swaths, a custom order that is a permutation of the swath positions yields the swaths in exactly that order (with the usual start variants), and any other order (missing, repeated or out-of-range entries, wrong length) is rejected with an error before anything is returned. The input list is not modified.",
 ["inputs"], "all index vectors and swath lists, valid and invalid",
 "Tests use three invalid and two valid orders of ten swaths.",
 [M+"route_planning/custom_order.cpp", "include/fields2cover/route_planning/custom_order.h"],
 [("CustomOrder::sortSwaths / setCustomOrder", M+"route_planning/custom_order.cpp")],
 ["returned swaths or thrown error"])
prop("C22", "Graph paths and costs are the shortest at every moment",
 "After any history of adding, re-weighting and removing edges, the reported costs are the true shortest-path costs of the current graph, every reported path uses existing edges, starts and ends at the right nodes and costs what is reported, unreachable pairs have no path, and all-paths enumeration lists exactly the simple paths. Graphs over points answer the same as the graph over their indices, with distances as default costs.",
 ["histories"], "all histories of graph operations interleaved with queries, directed and undirected edges, sparse node numbers, sinks and unreachable nodes",
 "Tests query one four-node graph after one construction; caching after removals is never queried.",
 [S+"Graph.cpp", S+"Graph2D.cpp", T+"Graph.h", T+"Graph2D.h"],
 [("addEdge, removeEdge, shortestPath, shortestPathsAndCosts, allPathsBetween, numNodes, numEdges, index maps", S+"Graph.cpp, "+S+"Graph2D.cpp")],
 ["paths, costs, counts, thrown errors"])
prop("C23", "Robot parameters are kept consistent",
 "Every robot parameter reads back as last set under any history of setters; minimum turning radius and maximum curvature are always reciprocal (up to 1e-7, the regularisation at zero curvature), whichever of them was set, and negative curvatures count by absolute value; unset turning speed, coverage width and robot width fall back to the documented values. Widths that cannot be a robot are rejected at construction and leave nothing half set.",
 ["histories"], "all histories of setters with valid values, and constructor arguments valid or not",
 "Tests read a few parameters once.",
 [S+"Robot.cpp", T+"Robot.h"], [("setters / getters, constructor checks", S+"Robot.cpp")],
 ["getters, thrown errors"])
prop("C24", "A field keeps its absolute geometry and coordinate system",
 "A field's absolute cells are the cells it was given, whatever reference point is kept internally, through cloning, assignment and re-setting; area and id are preserved. Coordinate-system strings are parsed consistently: a UTM string gives back its zone, hemisphere and datum for every zone from 1 to 60 in every accepted spelling, an EPSG code gives back its number, the two are mutually exclusive, and strings without the information give the documented default.",
 ["histories", "inputs"], "all fields and sequences of setters; all UTM zones, hemispheres, datums, separators and EPSG codes",
 "Tests use four strings with two-digit zones.",
 [S+"Field.cpp", T+"Field.h"],
 [("getUTMCoordSystem, getUTMDatum, getUTMZone, getUTMHemisphere, getEPSGCoordSystem, setCRS, getCellsAbsPosition, clone", S+"Field.cpp")],
 ["getters and absolute geometry"])
prop("C25", "Coordinate transformations are accurate and invertible",
 "Transforming a field to UTM and back, or to any supported system and back, restores every absolute coordinate to well below a millimetre, and the projected coordinates agree with the transverse Mercator formulas of the field's UTM zone, for all zones and both hemispheres. The zone chosen for a field is the one that contains it, and points, swaths, routes and fields transformed together stay aligned and keep their other attributes. Unknown coordinate systems are reported as errors.",
 ["inputs"], "all fields with geographic coordinates between 80S and 84N, all UTM zones and hemispheres, all transformed types",
 "Tests transform one Dutch field; transformation tests are not even linked in this build.",
 [M+"utils/transformation.cpp", "include/fields2cover/utils/transformation.h"],
 [("transform, transformToUTM, transformToPrevCRS, getRefPointInGPS, createCoordTransf, createSptRef", M+"utils/transformation.cpp")],
 ["coordinates and attributes after transformation"])
prop("C26", "Importing field files reproduces their content",
 "The field of a GML file (its first one: name, coordinate system, border and inner borders), every field polygon of a JSON file with its name and holes, and every swath and strip of a swath or strip file, is imported exactly once, in file order, with the coordinates written in the file. Files that are missing or malformed are reported as errors and never yield partial data silently.",
 ["inputs"], "all well-formed field files with any number of features, rings and number formats; truncated and malformed files",
 "Tests read three sample files.",
 [M+"utils/parser.cpp", "include/fields2cover/utils/parser.h"],
 [("importFieldGml, importJson, importSwathsJson, importStripsJson, getCellFromJson", M+"utils/parser.cpp")],
 ["imported fields, swaths, strips; thrown errors"])
prop("C27", "Random fields satisfy what was asked for, reproducibly",
 "For every seed, area and number of sides, a generated field or cell has the requested area, a valid simple boundary with the requested number of sides, and is convex or non-convex as requested; impossible requests are rejected. The ratio between its vertices' distances from the centre stays within the one of the range asked for. Random numbers stay in their interval and spread over it as their name says, and generators with the same seed produce the same sequence.",
 ["inputs", "histories"], "all seeds, areas, side counts and sequences of calls",
 "Tests use a few seeds.",
 [M+"utils/random.cpp", "include/fields2cover/utils/random.h"],
 [("generateRandField, generateRandCell, genConvexCell, genNonConvexCell, getRandomDouble, getAngleRandom, getRandomLineal", M+"utils/random.cpp")],
 ["generated cells and numbers"])
prop("C28", "Interpolating curves pass through their points",
 "For any two or more strictly increasing knots, the spline passes through every given point, is continuous with continuous slope and curvature between the ends, reproduces straight lines exactly, and depends linearly on the values given; with the monotone option, monotone data give a monotone curve. The result does not depend on what the object held before. Wrong-sized or unordered knots are rejected, and evaluation never reads outside the table.",
 ["inputs"], "all strictly increasing knot vectors and all values, evaluation points inside and outside the range",
 "Tests evaluate three curves at one point each.",
 [M+"utils/spline.cpp", "include/fields2cover/utils/spline.h"],
 [("CubicSpline constructor and operator()", M+"utils/spline.cpp")],
 ["values of the curve, thrown errors"])
prop("C29", "Turns do not depend on position, orientation or cache",
 "A turn between two poses, planned by any turn generator, starts at the first pose and ends at the second within tolerance, is the rigid image of the turn between the same poses given elsewhere in the plane, and mirrors when the poses are mirrored. Planning with the cache gives the same turn as planning without it, to the cache's resolution of a thousandth in each argument, whatever was planned before and whatever robot and spacing are used. The turns of the library's curve classes never bend more than the robot's maximum curvature, keep its turning speed, and the Dubins ones are as short as possible.",
 ["inputs", "histories"], "all pairs of poses, robots, and histories of cached turns",
 "Tests check the end point of a fixed set of turns; they are not even linked in this build.",
 [M+"path_planning/turning_base.cpp", "include/fields2cover/path_planning/turning_base.h"],
 [("createTurn, createTurnIfNotCached, transformToNormalTurn, isTurnValid, correctPath", M+"path_planning/turning_base.cpp")],
 ["returned paths"])
prop("C30", "A path stays geometrically consistent through every operation",
 "After any history of appending states, lines, swaths and paths, moving, rotating, mirroring, discretising, reducing and saving, the states of a path agree with the geometry: total length is the sum of its parts, each state's end is where its length and heading lead, time is length over speed, and lookups by distance return the point at that distance. Saving and loading restores the path to the digits asked for, and rigid motions change no length, speed or section type.",
 ["histories"], "all histories of path operations with valid states",
 "Tests use a few fixed paths; they are not even linked in this build.",
 [S+"Path.cpp", T+"Path.h", T+"PathState.h"],
 [("appendState, appendSwath, operator+=, length, getTaskTime, at, discretizeSwath, populate, reduce, moveTo, rotate, mirror, serializePath, saveToFile, loadFile", S+"Path.cpp")],
 ["states and derived values"])
prop("C31", "Planned paths follow the whole route in order",
 "The path planned for a list of swaths or a route covers every swath from its start to its end in order, each swath section at working speed with the swath section type, consecutive parts join without gaps, and sections in between are turns or headland connections. The ways between parts leave and reach swaths along their last and first sides. Poses on the way along a connection lie on it, in its order and direction, when its points are corners or straight. Planning is repeatable, leaves the route unchanged, and moving, turning or mirroring the route moves the path with it, whatever turn generator that moves with the poses is used.",
 ["inputs"], "all swath lists and routes and robots, with any turn generator",
 "Tests plan one field; they are not even linked in this build.",
 [M+"path_planning/path_planning.cpp", "include/fields2cover/path_planning/path_planning.h"],
 [("planPath, planPathForConnection, getSmoothTurningRadius", M+"path_planning/path_planning.cpp")],
 ["states of the planned path"])
prop("C32", "Planned routes cover every swath once and stay on the network",
 "For any mainland, headland rings and swaths, the planned route covers each swath exactly once in one of its directions (its own one when redirecting is off), connects consecutive swaths by shortest moves along the headland network, starts and ends at the requested point when one is set, and leaves its inputs unchanged.",
 ["inputs"], "all fields, headland rings and swath sets for which a route exists",
 "The route-planner tests need or-tools and are not even linked in this build.",
 [M+"route_planning/route_planner_base.cpp", "include/fields2cover/route_planning/route_planner_base.h"],
 [("genRoute, createShortestGraph, createCoverageGraph, transformSolutionToRoute", M+"route_planning/route_planner_base.cpp")],
 ["returned route"])
prop("C33", "The planning pipeline covers the mainland and nothing else",
 "Running the whole pipeline on a field (headlands, optional decomposition, swaths at a given or best angle, ordering) yields swaths that all lie in the mainland, whose strips cover every mainland point that is clearly within half a width of a track of the pattern, with the remaining uncovered share bounded by the border strips, and whose order visits each swath once. Its planned path works exactly those swaths, in that order. Translating or rotating the field (and the angle) moves headlands, swaths and order rigidly, up to driving all swaths the other way round.",
 ["inputs", "configurations"], "all fields, robot widths, angles, objectives and order patterns",
 "Tests check the modules one at a time on fixed fields.",
 [M+"headland_generator/constant_headland.cpp", M+"decomposition/decomposition_base.cpp", M+"swath_generator/swath_generator_base.cpp", M+"route_planning/single_cell_swaths_order_base.cpp", M+"objectives/sg_obj/field_coverage.cpp"],
 [("generateHeadlands, decompose, generateSwaths, genSortedSwaths", "all modules")],
 ["swaths, their areas and order"])
prop("C34", "Degenerate inputs are handled without undefined behaviour",
 "Every planning, objective and container operation called on empty, single-element or too-small inputs (no cells, cells that vanish, no swaths, one swath, empty connections, unset optional values) returns a neutral result or reports an error. It never reads or writes outside its data, dereferences a missing geometry, hands on values that are not numbers, or fails to return. (Index operators and references to a last element follow the standard containers; shares of a region without area are undefined.)",
 ["inputs", "histories"], "all combinations of empty and minimal arguments over the public operations",
 "Tests run without memory checking and rarely pass empty arguments.",
 [M+"route_planning/snake_order.cpp", M+"route_planning/spiral_order.cpp", M+"objectives/sg_obj/field_coverage.cpp", M+"objectives/rp_obj/rp_objective.cpp", M+"swath_generator/brute_force.cpp", S+"Graph.cpp", S+"Swaths.cpp", S+"Route.cpp", S+"Cells.cpp"],
 [("all public operations", "all modules")],
 ["termination, thrown errors, sanitizer reports"])
prop("C35", "Planning in one call is the composition of its steps",
 "Planning a route or path in one call, for any robot, cell, cells or field and any options (the decomposition options and the choice of route algorithm are reserved and have no effect yet), gives what the steps named by the options give when done by hand: the mainland inside the asked number of headland swaths of the robot's width (the cells themselves without headlands), swaths of the coverage width at the given or best angle, the shortest route along the middle headland ring (along the cells' borders without headlands), and a path with turns of the named planner. The overloads for one cell, cells and fields agree, default options are those of Options, and a field on the globe is planned in its UTM zone and its result returned in the field's own coordinates. The robot, the cells and the field are not modified.",
 ["inputs", "configurations"], "all robots, fields and options",
 "Nothing in the repository's built tests calls these functions.",
 ["src/fields2cover.cpp", "include/fields2cover.h"],
 [("planCovRoute, planCovPath", "src/fields2cover.cpp"), ("transformToUTM, transformToPrevCRS", "src/fields2cover/utils/transformation.cpp")],
 ["routes and paths returned, inputs afterwards"])
