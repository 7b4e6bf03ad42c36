D = {
"C01": "Laws of the angle functions (equivalence modulo a turn, range, symmetry, shorter arc) checked with long double arithmetic on angles chosen next to every wrap-around. Tests sample a dozen angles; a wrong boundary needs the exact value.",
"C02": "Each operation is recomputed with textbook trigonometry on plain doubles; intersections and closest points are checked by what they must satisfy (on both lines, no other point of the segment nearer) rather than by a second formula.",
"C03": "Model-based: the same random operation history runs on the collection and on nested std::vectors of points; after each step size, every element, length, area, bounding box, end points and iterators are compared, and out-of-range access must throw.",
"C04": "Each value is filled at random, cloned, a snapshot of every getter of both is compared, then each is modified and the snapshot of the other must not change.",
"C05": "WKT round trip, and the JSON and GML texts are parsed by the harness's own parser and compared number by number.",
"C06": "Probe points (vertices' surroundings, edge midpoints, grid, random) clear of all borders are classified by the oracle's even-odd membership of the operands, and the result must contain exactly those. Areas must obey inclusion-exclusion. Lattice operands share edges and corners exactly.",
"C07": "Queries against exact segment arithmetic on lattices (border cases decided exactly) and against floating geometry where the answer is clear.",
"C08": "Points nearer than d to a side must be in the buffer, points further than the mitre limit must not be, on both sides and for one-sided buffers; areas of mitred offsets of convex shapes are exact formulas. Discards only when GEOS called directly on the same shape is off.",
"C09": "Distance oracle on probe points aimed at the headland's edge; rings are checked vertex by vertex and by the area they enclose; the mainland of generateHeadlandArea must equal the ring's interior.",
"C10": "The chords of a line are computed from the sorted crossings with all sides (exact on lattices) and compared as point sets; getLinesInside, the 'until border' and 'from border' variants and createLineUntilBorder are all decided from the same chords.",
"C11": "Parts must tile the cell (probes in exactly one part, areas add up), lie on one side of every full cut, and their number must be the one the crossings imply.",
"C12": "Parts tile the field; every cut lies on a line through a vertex in the split direction; trapezoidal parts have no reflex vertex across the split direction, boustrophedon parts are monotone; turning the field and the angle turns the parts.",
"C13": "Slab oracle: in swath coordinates the field's chords at each track position are computed exactly; every swath must be one of them with the right width, and every chord longer than the tolerance must be there, ordered and numbered. Both positions that the rounding of height/width allows are accepted only within 1e-9.",
"C14": "A table objective with arbitrary costs per angle shows which angles were evaluated and which one was chosen; the library objectives are compared with an exhaustive loop over the same grid.",
"C15": "Swath areas are intersected with the field by the harness's own clipping (rectangles of straight swaths) or sampled, and counts and sums recomputed.",
"C16": "Way points in travel order are listed by the harness, the cost is the sum of the steps. Every overload of computeCost is called on equivalent sequences.",
"C17": "Histories of reverse/align/copy/clone/set with a plain model of the point list; comparison operators are checked for the relations among families of related swaths; areaCovered against the strip's membership.",
"C18": "Model-based histories over Swaths and SwathsByCells; appended lines are clipped by the oracle.",
"C19": "Model-based histories over Route, geometry recomputed as a polyline of the non-empty parts.",
"C20": "Reference patterns written from the documentation (indices and directions), all four variants and beyond.",
"C21": "Permutations must be applied exactly, everything else must throw.",
"C22": "Bellman-Ford on the model's edge list and enumeration of simple paths by depth-first search, after every few edits.",
"C23": "Plain model of the parameters after every setter.",
"C24": "Absolute coordinates kept by the model through setters, clones and assignments; a small grammar generates coordinate-system strings.",
"C25": "Krueger's series (order 6) is an independent implementation of the projection; round trips through chains of systems; points, paths, swaths and routes placed on known features of the field must stay on them.",
"C26": "The generator writes the file and knows its content. Damaged files are cut, have tags, commas or numbers removed or changed; they must throw, or (when the damage is harmless) yield the content.",
"C27": "Invariants of the cells returned; two generators with equal history must agree; Kolmogorov-Smirnov distance of 4000 numbers (false alarm once in 4e8 samples).",
"C28": "Second derivatives by dense elimination in long double; superposition, shift and scale relations; monotone data with the monotone option.",
"C29": "A turn generator is any class derived from TurningBase: the harness defines some whose turns are simple known curves that record their arguments, besides the library's four curve classes over stand-in solvers. The recorded arguments must be the poses laid on the x axis; the returned path must be the harness's own cubic between the two poses in the plane. Cache histories repeat turns exactly, moved, mirrored, slightly changed, with robots that differ in one setting and with changed spacing. Dubins turns are compared with the shortest length found from the tangents of the turning circles.",
"C30": "Plain list of states as model. Each operation is modelled from its documentation.",
"C31": "The expected sequence of sections is derived from the route and the planned path is walked along it. A harness turn generator marks the first state of every turn, so that the poses asked for along a connection can be found in the result and compared with the connection. How many of a connection's corners are kept is a heuristic of the library (short sides and the first and last corner are skipped) and is not judged.",
"C32": "Own network (ring sides plus feeders from swath ends), Dijkstra for the length of each connection, brute force over orders and directions for the length of the tour when there are up to four swaths; swaths a permutation of the input; costs of both graphs against the network.",
"C33": "End-to-end with the oracle of C09, C12 and C13 reduced to observable guarantees on the final swaths.",
"C34": "About 160 operations of the public interface (geometry, lists, planners, objectives), each fed with empty, single, repeated, collinear and tiny arguments under AddressSanitizer, UBSan and library assertions with a time limit; a call must return or throw an exception derived from std::exception, and what it returns must be numbers. A second facet states the neutral results: nothing united, cut, planned, sorted or costed gives nothing, and nothing as an operand changes nothing.",
"C35": "The harness composes the steps itself from the options (mainland, ring, swaths, route, turns, UTM zone and back) and compares every number of the result with the one-call planner; besides, each planned swath must be in the mainland and have the coverage width, and a result for a field on the globe must lie on it, so that a mistake in the composition cannot hide by being copied.",
}
