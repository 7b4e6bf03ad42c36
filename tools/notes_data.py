NA = {}
NOTES = {
"C01": ("algebraic laws and long-double reference for angle arithmetic", "Angle functions on generated angles, boundary values included."),
"C02": ("algebraic laws and reference plane geometry for points", "Point operations against trigonometry in plain code."),
"C03": ("stateful model-based testing of the six collections against plain vectors", "Random operation histories, each state compared with a list model."),
"C04": ("clone/mutate histories with full snapshots of both objects", "Every value type, every getter compared before and after mutations of either copy."),
"C05": ("round trips through WKT and independent parsing of JSON/GML", "Export/import of generated geometries of all types."),
"C06": ("point-membership oracle and inclusion-exclusion for boolean operations", "Pairs of generated regions with probe points."),
"C07": ("reference plane geometry for spatial queries", "Distances, relations and convexity against independent formulas."),
"C08": ("point-membership oracle for mitred offsets plus exact areas", "Probe points near the offset line; cases where GEOS's own offset is off are discarded."),
"C09": ("point-membership oracle for headlands, metamorphic ring relations", "Probe points near the headland's inner edge; cases where GEOS's own offset is off are discarded."),
"C10": ("reference chord computation by exact segment arithmetic", "Lines and line bundles over generated regions, through vertices and along sides included."),
"C11": ("partition oracle (probe membership, areas, side of each cut)", "Cells with holes cut by one or several lines, far coordinates included."),
"C12": ("partition and part-shape oracle for decompositions, metamorphic rotations", "Fields with holes and reflex vertices; each part is probed and its cuts are traced back to vertices."),
"C13": ("slab oracle: every track position of the pattern and its exact chords", "Fields, widths and angles; both the missing and the surplus swaths are looked for."),
"C14": ("exhaustive reference search over the same grid with a table objective and the real ones", "Compares the chosen angle with every angle of the grid."),
"C15": ("independent region arithmetic for swath objectives", "Overlapping, disjoint, duplicated and outlying swaths on generated fields."),
"C16": ("reference way-point sums and area shares", "Routes with empty groups and connections, and point sequences."),
"C17": ("stateful histories of a swath against a plain model; reference strip geometry", "Every getter after each operation."),
"C18": ("stateful model-based testing of swath lists against plain lists", "Random histories over lists and lists of lists."),
"C19": ("stateful model-based testing of routes against the polyline model", "Random histories of route building and copying."),
"C20": ("reference patterns for each order and variant", "Lists of any length, ids and directions compared one by one."),
"C21": ("reference permutation and rejection oracle", "Valid and corrupted orders."),
"C22": ("stateful model-based testing of graphs against Bellman-Ford and exhaustive path enumeration", "Histories of edits interleaved with queries on index and point graphs."),
"C23": ("stateful histories of robot setters against a plain model", "Every getter after each setter; invalid constructor arguments."),
"C24": ("histories of field operations against absolute coordinates; string grammar for coordinate systems", "All zones, hemispheres, datums and spellings."),
"C25": ("reference transverse Mercator (Krueger series) and round trips", "Fields over the whole UTM range, transformed with routes, paths, swaths and points."),
"C26": ("generated field files read back; truncated and corrupted files", "Files are written by the generator in several spellings and compared with the import."),
"C27": ("invariants of generated cells, equal-seed differential, distribution test", "Sequences of requests on generators and their copies."),
"C28": ("reference natural spline by dense elimination, metamorphic relations", "Knots, values and evaluation points of wide range."),
"C29": ("metamorphic relations between turns (rigid images, mirrors, cached and uncached) with generated turn planners", "Poses, robots and histories of the turn cache. The curve solvers are stand-ins for the missing steering_functions library: what is checked is what the library asks of them and makes of their answers."),
"C30": ("stateful model-based testing of paths against a plain list of states", "Histories of path operations; saved and loaded files."),
"C31": ("sequence oracle for planned paths (swaths, turns, connections in order)", "Swath lists, routes and robots. The Dubins solver is a stand-in for the missing library."),
"C32": ("permutation and network oracle for planned routes", "Fields, headland rings and swath sets. The OR-tools solver is a stand-in for the missing library."),
"C33": ("end-to-end coverage oracle and rigid-motion relation for the pipeline", "Fields, widths, angles, objectives and orders."),
"C34": ("robustness fuzzing of every operation with empty and minimal arguments under sanitizers", "Operation histories under AddressSanitizer and UBSan with a time limit."),
"C35": ("differential testing of the one-call planners against the composed steps over generated fields and options", "Fields in the plane and on the globe, robots and every option; the turn and route solvers are stand-ins for missing libraries on both sides."),
}
