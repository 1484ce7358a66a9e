"""the properties: single source of properties.jsonl and MANIFEST.json (written by tools/gen.py)"""
NOTES = "TLA+ specifications under spec/, checked with TLC, bound to the code by scenario replay and trace validation; see DESIGN.md"
PROPS = []
TLC = "TLA+ model checked with TLC; TLC-generated scenarios replayed into the real code; recorded traces validated against the specification by TLC"


def P(id, title, statement, over, text, why, files, mech, note="", na=None, technique=TLC):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique)
    if na:
        d["na"] = na
    PROPS.append(d)


P("P01", "Every cell face has exactly one connection, to the right neighbor",
  "After any sequence of mesh operations on a mesh built over the cell tree, every face of every element is attached to exactly one thing: one conformal connection, one fine or coarse side of one hanging-node connection, or one boundary. Faces between two tree cells are joined exactly when the cells touch across that face (hanging-node connections always joining one coarse face to all of the next-finer cells facing it), faces on the domain boundary carry the boundary condition given for that side, and the mesh's own validity report and element counts say exactly this. An update reports a change whenever it changed the mesh, and without an inserted surface only then.",
  ["histories", "inputs", "configurations"], "all histories of refinement and unrefinement requests, locks, surface insertions, layer splits, in 1 to 3 dimensions",
  "Unit tests check connection counts on a handful of fixed meshes; the property quantifies over every history of adaptation requests and every pattern of neighboring levels.",
  ["src/Accessible_mesh.cpp", "include/Accessible_mesh.hpp", "include/connection.hpp", "include/Refined_connection.hpp", "src/Boundary_condition.cpp"],
  [("connect_new, connect_rest, disconnect_boundary, cleanup and purge", "src/Accessible_mesh.cpp"), ("validity report", "src/Accessible_mesh.cpp valid/count_redundant"), ("hanging-node connections", "include/Refined_connection.hpp")],
  note="Model: exhaustive adaptation histories of small trees. Code: every snapshot after every operation of generated and random histories is checked against the specification; bounded by the histories replayed.")

P("P02", "Connected faces coincide geometrically, including their vertex numbering",
  "Whenever two element faces are connected, the points one side associates with the face are the same physical points, in the same order, as the other side's: conformally connected faces share the same vertices, fine faces tile the coarse face they hang on, and the permutation applied to face data maps each node onto the node at the same place. Vertices of undeformed cells stay at their nominal positions, and vertices hanging on a coarser face lie on that face. Connected neighbors never keep separate vertices for the same face corner. This holds for every combination of face dimension, face sign and orientation that the mesh can produce.",
  ["configurations", "histories"], "all face dimension/sign pairs and orientations, and all adaptation histories, in 1 to 3 dimensions",
  "Tests place a few hand-picked orientation pairs; the property quantifies over all orientation combinations and all meshes that produce them.",
  ["src/connection.cpp", "include/connection.hpp", "src/Face_permutation.cpp", "include/Refined_connection.hpp", "src/Accessible_mesh.cpp", "src/Hanging_vertex_matcher.cpp"],
  [("vertex_inds, Con_dir and Face_permutation", "src/connection.cpp, src/Face_permutation.cpp"), ("vertex merging on connection", "include/connection.hpp"), ("hanging vertex matching", "src/Hanging_vertex_matcher.cpp")],
  note="All orientation pairs enumerated; adaptation histories bounded as in P01.")

P("P03", "Mesh adaptation honors requests, balances neighbors and respects locks",
  "A mesh update refines every cell whose refinement was requested, merges sibling cells when all of them request it and nothing forbids it, and otherwise changes only what is needed so that no two cells touching across a face or an edge differ by more than one level. No cell whose unrefinement is locked, or with a locked sibling, is merged by an update; no requested refinement is lost to a merge; and cells neither requested nor needed for balance keep their identity. Repeating an update without new requests changes nothing.",
  ["histories", "inputs"], "all sequences of refinement, unrefinement and locking requests on trees in 1 to 3 dimensions, with and without an inserted surface",
  "Tests run two or three fixed adaptation sequences; the cascade of balance refinements and the interplay with locks and simultaneous requests depend on the whole history.",
  ["src/Accessible_mesh.cpp", "src/Tree.cpp"],
  [("update, refine_by_record, needs_refine", "src/Accessible_mesh.cpp"), ("refine/unrefine", "src/Tree.cpp")],
  note="Exact step semantics on tree meshes: model checked exhaustively on small trees, replayed exhaustively into the code and validated on random larger histories; relational semantics on meshes with surfaces.")

P("P04", "Inserting a surface deletes the right cells and closes the cavity",
  "After a surface is inserted, no cell that intersects the surface remains in the mesh, no cell separated from the flow starting point by such cells remains, and cells are deleted only for those reasons or to keep the cavity free of partially covered faces and diagonal-only contacts. Every exposed cell face is covered by exactly one deformed body-fitted cell whose opposite face carries the surface boundary condition and whose side faces meet the neighboring body-fitted cells or inherit the boundary condition of the cell they grew from. Later adaptation keeps the mesh off the surface.",
  ["inputs", "histories"], "all surface positions and shapes, starting points, and adaptation histories before and after insertion",
  "Tests insert two or three fixed geometries; which cells are deleted and how exposed faces are stitched depends on every combination of neighboring levels along the cavity.",
  ["src/Accessible_mesh.cpp", "src/Tree.cpp", "include/Surface_geom.hpp"],
  [("set_surface, delete_bad_extrusions, extrude, connect_rest", "src/Accessible_mesh.cpp"), ("flood fill", "src/Tree.cpp")],
  note="Bounded by the geometries and histories replayed; intersection is judged by an independent distance oracle in the harness.")

P("P05", "Tree lookups and neighbor queries agree with cell geometry",
  "After any sequence of refinements and unrefinements, the leaves of the cell tree tile the root cell exactly; looking up a point returns the one leaf whose half-open box contains it (or nothing outside the root); and neighbor queries return exactly the leaf, or set of leaves, that geometrically adjoin the cell in the asked direction. Parent, child, level and coordinate queries are consistent with each other.",
  ["histories", "inputs"], "all refine/unrefine histories and all query points and directions, in 1 to 3 dimensions",
  "Tests query a fixed two-level tree at chosen points; correctness must hold for every tree shape, point on a cell boundary and direction.",
  ["src/Tree.cpp", "include/Tree.hpp"], [("find_leaf, find_neighbor, find_neighbors", "src/Tree.cpp")],
  note="Exhaustive over small trees with all lattice points and directions; random deeper trees.")

P("P06", "Flood fill marks exactly the cells reachable without crossing a barrier",
  "A flood fill started at a cell gives its status to exactly those leaves that are unprocessed and connected to the starting leaf through a path of face-adjacent unprocessed leaves, across any differences in refinement level; cells with any other status are neither changed nor crossed. Refining a cell passes its status on to its children; clearing resets the status of every cell below. Started from a cell that is subdivided, the fill starts from its first leaf only.",
  ["histories", "inputs"], "all tree shapes, barrier patterns and starting cells",
  "Tests fill one fixed tree; reachability depends on the whole pattern of barriers and levels.",
  ["src/Tree.cpp", "include/Tree.hpp"], [("flood_fill, set_status, clear_status", "src/Tree.cpp")],
  note="Exhaustive over small trees and all barrier patterns in bounds; random deeper trees.")

P("P07", "Shared vertices always agree on position, neighbors, data and lifetime",
  "Elements that have been told two of their vertices are the same see one vertex from then on: one position (the mean over everything merged into it), the union of both sets of connected elements, neighbors and data contributions. Merging is insensitive to order and to being repeated, a vertex lives exactly as long as something uses it, and removing an element removes exactly its own contributions. A vertex moves freely exactly when every element and constraint that shares it lets it.",
  ["histories"], "all interleavings of merging, reading, moving and removing vertices",
  "Tests merge a few pairs; the property concerns all merge orders and lifetimes.",
  ["src/Vertex.cpp", "include/Vertex.hpp"], [("Vertex::eat, Transferable_ptr, Non_transferable_ptr", "src/Vertex.cpp")],
  note="Exhaustive small histories, random longer ones, run under AddressSanitizer-free build.")

P("P08", "Mutually paired objects always point at each other or at nothing",
  "Two objects joined by a mutual pointer each see the other and nobody else, at every moment: pairing one with a third releases its previous partner, destroying one clears the other's view of it, and moving one carries its partnership along without ever leaving a dangling or one-sided link.",
  ["histories"], "all histories of pairing, unpairing, moving, and destruction",
  "Tests cover single operations; the invariant concerns all sequences.",
  ["include/Mutual_ptr.hpp"], [("Mutual_ptr pair/unpair/move/destructor", "include/Mutual_ptr.hpp")],
  note="Exhaustive histories over a small pool of objects; random longer ones.")

P("P09", "Writing a mesh to a file and reading it back reproduces the mesh",
  "A mesh written to a file and read back has the same elements, shared vertices and their positions, node adjustments, tree and tree status, connections with the same orientations, hanging-node structure, extruded layers, boundary attachments and boundary conditions as the original, and the file itself is what the documentation of the format says about the mesh. It is as valid as the original, and further mesh updates have the same effect on both. (Unrefinement locks are not stored.)",
  ["histories", "configurations"], "all meshes that histories of mesh operations can produce",
  "One test round-trips one mesh; every kind of connection, orientation and tree state must survive.",
  ["src/Accessible_mesh.cpp", "include/connection.hpp", "doc/mesh_io.dox"], [("write and the reading constructor", "src/Accessible_mesh.cpp")],
  note="Bounded by the meshes the replayed histories reach: all connection orientations between two elements in 1-3D, and randomized update/surface/relax histories.")

P("P10", "An exported mesh describes exactly the mesh",
  "Exporting a 3D mesh to the PolyMesh format at any point of any meshing history writes files in which the points are the vertices of the mesh, the cells its elements, and the faces its connections: each interface of two elements is one internal face, hanging-node interfaces are as many faces as there are finer elements, so that coarser elements become polyhedra, every exposed face is in the patch of its boundary condition, the lower-numbered cell owns each face, the loop of points of each face winds around its normal out of the owner, and the counts in the headers are true. Nothing remains of an earlier export, the mesh is not changed by being exported, and a mesh that cannot be exported (not 3D) is refused instead of written wrongly.",
  ["histories", "configurations"], "all 3D meshes that histories of mesh operations can produce, at every point of the history",
  "No test exports a mesh; every orientation of every kind of connection has to come out right.",
  ["src/Accessible_mesh.cpp", "doc/mesh_io.dox"], [("export_polymesh", "src/Accessible_mesh.cpp")],
  note="Bounded by the meshes the replayed histories reach: all connection orientations between two elements in 3D, and randomized update/surface/relax histories.")

P("P11", "A run restarted from its files continues exactly where it was saved",
  "Writing the mesh and the flow state and reading them back, into the same solver or a new one, at any point of any history of initialization, iterations of any kind, stabilization settings and further saves, gives back exactly the state that was saved, and every later operation then produces the same solution as in a run that was never interrupted.",
  ["histories", "configurations"], "all histories of initializations, iterations, saves and restarts, with and without hanging-node and extruded cells, local and global time steps, and artificial viscosity",
  "Tests write and read one state once and compare it; that the evolution after the restart is the same has to hold for every history before and after it.",
  ["src/Solver.cpp", "src/Accessible_mesh.cpp", "include/Solver.hpp"],
  [("write_state, read_state", "src/Solver.cpp"), ("write, read_file", "src/Accessible_mesh.cpp")],
  note="Model: an implementation model of cell, face, hanging-node and boundary-cache data refines the abstract evolution. Code: every operation of random histories is observed (values of each cell, artificial viscosity coefficients included) and validated.")

P("P12", "Input-language variables keep their type, scope and latest value",
  "In the case-input language, a variable keeps the type of its first assignment, an assignment that cannot be converted is an error that leaves the variable as it was, integers widen to reals but never the reverse, and lookups see the innermost definition and then the enclosing ones. Variables that compute their value are re-evaluated on each read and can be neither assigned nor created again.",
  ["programs", "histories"], "all sequences of assignments and lookups over nested scopes",
  "Tests assign a few variables once each; the rules must hold over every sequence of types and scopes.",
  ["src/Namespace.cpp", "include/Namespace.hpp", "src/Interpreter.cpp"], [("assign, lookup, supersede", "include/Namespace.hpp")])

P("P13", "Input-language expressions evaluate by the documented grammar and typing rules",
  "Every expression of the case-input language has the value its documented precedence, left-to-right association, parenthesization and typing rules give it: unary operators bind tightest, arithmetic on two integers stays integer and mixed arithmetic is real, comparisons give integers, and strings concatenate and compare. An ill-typed expression, a missing operand, an integer division by zero, an index outside of a string, a malformed literal and an unbalanced parenthesis or brace are errors of the language which a program can handle, never a value and never the end of the process.",
  ["programs"], "all expressions",
  "Tests evaluate a handful of expressions; precedence and typing interact in every combination.",
  ["src/Interpreter.cpp", "include/Interpreter.hpp"], [("_eval, _general_add and operator tables", "src/Interpreter.cpp")])

P("P14", "Input-language control flow, macros and errors behave as documented",
  "Substituting a macro behaves as if its text stood in its place; conditionals, loops, recursion and early exits written with macros run exactly the statements they should, in order. When a statement fails and an exception handler has been set, exactly that handler runs, once, in place of the rest of the failing statement, and the program goes on with the next statement; each handler handles one exception. Without a handler the error ends the program and is reported to the caller. Statements before the error keep their effects.",
  ["programs"], "all programs built from macros, conditionals, loops and exceptions",
  "Tests run a few fixed programs; control flow must hold for all nestings.",
  ["src/Interpreter.cpp", "include/Interpreter.hpp", "include/builtin.hil"], [("exec, substitution, except/throw", "src/Interpreter.cpp")])

P("P15", "A case run prints, saves and stops exactly when its inputs call for it",
  "A run performs status reports and output files at exactly the iterations selected by their frequencies and by the final iteration, applies run-time commands at the defined points, keeps the latest-output links pointing at the newest output, and stops exactly when its termination condition first holds. Output frequencies apply at the points where status is reported (the first iteration and the multiples of the reporting frequency), so an output happens at those of them that are multiples of its own frequency. The requested kinds of visualization are each written to files of their own. Nothing is skipped, repeated or performed after the end.",
  ["configurations", "histories"], "all combinations of frequencies, termination conditions and run-time commands",
  "Tests run one short case; the schedule must be right for all combinations.",
  ["src/Case.cpp", "include/Case.hil"], [("run loop and scheduling", "src/Case.cpp, include/Case.hil")])

P("P16", "Convergence monitors report the bounds of exactly the recent window",
  "A history monitor given samples at increasing iterations reports, at every moment, the minimum and maximum over the samples of the most recent fraction of the history that its window defines, never missing a sample inside the window and never keeping one that has left it, within its documented storage granularity. In a case run the monitors of the chosen variables are fed one sample each time status is reported, labelled with the iteration at which it was taken, and report from then on through the status variables.",
  ["histories"], "all sample sequences and window and buffer sizes",
  "Tests feed one smooth sequence; the guarantee concerns every sequence, window fraction and buffer size.",
  ["src/History_monitor.cpp", "include/History_monitor.hpp"], [("add_sample, min, max", "src/History_monitor.cpp"), ("monitors of a case", "src/Case.cpp")])

P("P17", "The same history gives the same solution, and looking at it does not change it",
  "The flow solution is determined by the sequence of meshing, initialization, iteration and stabilization operations: running the same sequence again, with any number of threads, gives the same mesh and (up to rounding) the same solution. Reports between them, meaning integrals, bounds, samples, residuals, uncertainty and admissibility estimates, visualizations and saved files, never change the solution of that or any later operation.",
  ["histories", "schedules"], "all histories, numbers of threads and reports between the operations",
  "Tests compute a report once at the end; that no report at any point of any history and no thread schedule disturbs the rest of the run cannot be sampled by fixed cases.",
  ["src/Solver.cpp", "src/Accessible_mesh.cpp", "include/Spatial.hpp"],
  [("reports, iteration", "src/Solver.cpp"), ("parallel mesh building", "src/Accessible_mesh.cpp")],
  note="As P11. Random histories are run four times with different reports and numbers of threads in between. Histories end when the solution becomes non-finite.")

P("P18", "Questions about the surface are answered completely and do not depend on hints",
  "For every surface made of segments, triangles, polygonal curves, spheres and any (nested) combination of them, at every scale, position and number of pieces: the nearest point is a point of the surface than which no piece has a nearer one (any of them if several are equally near), whatever guess of the distance is supplied; it is empty if and only if nothing lies within the maximum distance. The intersections with a line are on the surface and include every place where the line crosses a piece, also at its boundary (each piece may report a place once; spheres report both places). Pieces that are degenerate or far from each other, and the tree in which pieces are sorted, make no difference.",
  ["inputs"], "all sets of pieces, points, lines, guesses and maximum distances",
  "Tests ask about a circle and a few triangles; the culling in the tree and by bounding balls and the repeated search with larger guesses go wrong only for particular pieces, sizes and directions.",
  ["include/Simplex_geom.hpp", "src/Simplex_geom.cpp", "src/Surface_geom.cpp", "include/Nearest_point.hpp", "include/math.hpp"],
  [("tree of simplices", "include/Simplex_geom.hpp"), ("spheres and compounds", "src/Surface_geom.cpp")],
  note="Geometry has integer coordinates (in units of an arbitrary length, from an arbitrary origin) so that the specification gives exact answers. Lines parallel to a piece and lines tangent to a sphere may or may not report intersections.")

P("P19", "A geometry file means the same surface in every format",
  "A surface written to a STEP or IGES file (2D edges or 3D faces, also as an assembly in which parts are turned, moved and used several times), to an ASCII or binary STL file in any unit, or to a CSV file, and read by hexed is the surface that was written, at its place and in metres: nearest points and intersections are those of P18. Numbers of segments per edge and tolerances of triangulation make no difference to straight edges and plane faces. A CSV table ends at the first empty row; rows with missing or unreadable entries are refused.",
  ["inputs"], "all files with straight edges and plane faces, placements, units and discretization parameters",
  "Tests read one ellipse and one STL and look at a few points; which parts of a file are lost, shifted or extended depends on its structure.",
  ["src/Occt.cpp", "include/Occt.hpp", "src/read_csv.cpp", "src/Simplex_geom.cpp"],
  [("discretization", "src/Occt.cpp"), ("CSV", "src/read_csv.cpp")],
  note="The files are written by the harness itself (STL, CSV) or by Open CASCADE's writers. Curved edges and faces, whose discretization is approximate, are not covered.")

P("P20", "Closed domains lose nothing and undisturbed flow stays undisturbed",
  "In a domain enclosed by slip or adiabatic no-slip walls, advancing with a global time step keeps the total mass and energy (up to rounding), and the residuals of mass and energy integrate to zero with global or local time steps, whatever the flow, the artificial viscosity and the mesh: any number of dimensions and row size, hanging nodes, faces against several elements, extruded and deformed cells. Fluid at rest in such a domain stays at rest, and a uniform flow through freestream, Riemann-invariant, outflow, copy or matching pressure boundaries stays the same uniform flow, on every mesh whose elements have positive Jacobians (with a surface: in 2D at row size at least 3, in 3D with straight faces). None of this is changed by saving and restarting, by switching artificial viscosity on or off or by the number of threads.",
  ["inputs", "histories"], "all meshes, boundary conditions, flows and histories of iteration, stabilization and restart",
  "Tests march single fixed meshes and compare with loose tolerances; conservation at a particular kind of connection, orientation or boundary breaks only on meshes which contain it.",
  ["src/Solver.cpp", "include/Spatial.hpp", "src/Boundary_condition.cpp", "src/Accessible_mesh.cpp"],
  [("fluxes and connections", "include/Spatial.hpp"), ("boundary conditions", "src/Boundary_condition.cpp")],
  note="Meshes and histories as in P17. Balances are compared with the sum of the magnitudes that enter them. Curved faces in 3D and row size 2 with a surface are exempt from the uniform-flow statement, since there the discrete geometric identities hold only approximately by design; so is smoothing of hanging vertices in 3D, which is a known finding of P02.")

P("P21", "The solution does not depend on the orientation of the axes",
  "A problem whose axes are exchanged or reversed, with its geometry, boundary conditions, flow fields, refinement criteria and starting point of the flood fill changed accordingly, gets the same mesh and (up to rounding) the same solution, in its own axes: through meshing, fitting to a surface, initialization, iteration with any options, artificial viscosity, stabilization, saving and restarting. (Fitting faces to a surface in 3D is exempt, since it interpolates one dimension after the other.)",
  ["inputs", "histories"], "all meshes, histories and changes of axes",
  "Tests use axes in their usual order; code for particular faces, dimensions and directions of connections is exercised by few of the possible combinations and its results have no reference values.",
  ["include/Spatial.hpp", "src/Solver.cpp", "src/Accessible_mesh.cpp", "src/connection.cpp"],
  [("orientation of faces", "src/connection.cpp"), ("meshing", "src/Accessible_mesh.cpp")],
  note="Meshes and histories as in P11, each repeated in 2 to 5 orientations, with spheres as surfaces.")
