PR = "src/predicates/predicates.rs"
NUM = ["inputs"]
AI = "abstract interpretation of MIR with value numbering, trace partitioning and forward rounding-error analysis"
NOTE = ("Decided from the MIR of the current source for every comparison outcome of every branch, hence for all finite inputs without overflow/underflow; trusts rustc's MIR, "
        "the std models in sa/, the published error-free-transformation theorems, and random interpretation over a 127-bit prime field for polynomial identities.")

P("P01", "Multi-component exact arithmetic is exact",
  "Every addition, subtraction, multiplication, scaling, growth, negation and comparison with zero on multi-component floating-point numbers yields a number whose exact value is the exact real result, for every well-formed operand including zero and single-component ones. The result is again a non-empty, ordered multi-component number.",
  NUM, "all well-formed expansions of finite doubles whose products neither overflow nor underflow",
  "The unit tests add and multiply a handful of constants; exactness depends on every pattern of zero tails and magnitude interleavings.",
  [PR, "src/predicates/expansion_number.rs"],
  [("expansion sum/diff/scale/product/grow", PR), ("operators of the expansion number type", "src/predicates/expansion_number.rs")],
  "values returned by the public expansion functions and operators")
claim("P01", AI + " (per-primitive, all partition classes for bounded component counts; operators by summaries)",
      NOTE + " Primitives are analysed on operands of up to 3 (quick) / 4 (thorough) symbolic components; longer operands follow the same loop body but are not separately enumerated.")
for i, (n, what, dim) in enumerate([
        ("2D orientation", "three points in the plane the sign returned is the sign of the exact orientation determinant", 2),
        ("3D orientation", "four points in space the sign returned is the sign of the exact orientation determinant", 3),
        ("in-circle", "four points in the plane the sign returned is the sign of the exact in-circle determinant", 2),
        ("in-sphere", "five points in space the sign returned is the sign of the exact in-sphere determinant", 3),
        ("lifted 4D orientation", "five points in space with weights the sign returned is the sign of the exact lifted-orientation determinant", 3)]):
    id = "P%02d" % (i + 2)
    P(id, "Explicit-point %s predicate returns the exact sign" % n,
      "For any %s, however nearly degenerate the points are; zero is returned exactly when the determinant is zero." % what,
      NUM, "all finite double coordinates without overflow or underflow",
      "Tests evaluate a few well-separated points, which the first floating-point filter answers; the adaptive stages and their error constants are reached only by near-degenerate inputs.",
      [PR], [("filter, adaptive and exact stages", PR)], "sign of the value returned by the predicate")
    claim(id, AI, NOTE)

P("P07", "Interval arithmetic encloses the exact real results",
  "Every construction, addition, subtraction, multiplication, negation and scalar operation on interval numbers yields an interval that contains every real result of the operation on members of the operand intervals. Hence the interval's sign questions (positive, negative, not zero, sign known) answer true only when every enclosed real number has that sign.",
  NUM, "all intervals with finite bounds of every sign combination",
  "Which bound products are formed depends on the sign case of both operands; a test exercises a few of the nine combinations and random values rarely make a wrong bound visible.",
  ["src/predicates/interval_number.rs"],
  [("IntervalNumber operators and sign queries", "src/predicates/interval_number.rs")], "bounds and sign answers of interval numbers")
claim("P07", "abstract interpretation of MIR over symbolic interval lanes with sign-case partitioning; each result lane compared with the extremal vertex polynomials",
      "Decided from the MIR of the current source for all sign cases of the lanes. Round-to-nearest with an outward step; excludes overflow, underflow and the lane pattern [+0,-0] (which no operation produces).")

IMP = "interprocedural abstract interpretation of MIR with value numbering; homogeneous forward-error bounds derived from the source; random interpretation against the specification determinant"
INOTE = ("Decided from the MIR of the current source for every combination of explicit / line-plane / three-plane points and every partition class. Points are opaque in P09-P11: they are known by the "
         "contract P08 establishes and the error bounds derived from the current static filters. No overflow/underflow; filter constants accepted down to 2^-14 below the derived bound.")
GP = "src/predicates/generic_point.rs"
P("P08", "Implicit intersection points evaluate to the true intersection",
  "A point given as the intersection of a line with a plane, or of three planes, evaluates at every stage (floating-point filter, interval, exact) to homogeneous coordinates that are those of the geometric intersection, with a positive denominator. A stage that answers is certain of that; the exact stage declines only for a point that does not exist, and asking again gives the same answer as the first time.",
  NUM, "all finite defining points without overflow or underflow, including nearly parallel and coincident ones",
  "Meshes in the tests exercise well-conditioned intersections that the first filter settles; the interval and exact stages and the caching between them are hardly reached.",
  [GP], [("ImplicitPointLPI / ImplicitPointTPI evaluation stages", GP)], "homogeneous coordinates returned by the stages of implicit points")
claim("P08", IMP, INOTE)
for id, what, fn, spec in (("P09", "3D orientation", "orient3d", "four"), ("P10", "2D orientation", "orient2d", "three"), ("P11", "Coordinate comparison", "less_than", "two")):
    P(id, "%s of implicit and explicit points gives the exact sign" % what,
      {"P09": "For any mix of explicit and implicit points, the 3D orientation predicate returns the sign of the exact orientation determinant of the points' true positions, whichever stage answers. It answers zero exactly when the four points are coplanar and undefined only when an implicit point does not exist.",
       "P10": "For any mix of explicit and implicit points and each of the three projections, the projected 2D orientation predicate returns the sign of the exact orientation determinant of the projected true positions, whichever stage answers. Choosing the projection by dropped axis gives the same answer as calling that projection.",
       "P11": "For any mix of explicit and implicit points and each axis, the comparison returns the exact sign of the difference of the two points' true coordinates on that axis, whichever stage answers. Swapping the two points reverses the answer."}[id],
      NUM, "all %s-point combinations of point kinds and all finite defining coordinates without overflow or underflow" % spec,
      "Each combination of point kinds has its own filter, interval and exact code; tests reach a few combinations and almost only their filters.",
      ["src/predicates/%s.rs" % fn], [("filter, interval and exact stages for every combination of kinds", "src/predicates/%s.rs" % fn)], "orientation returned by the predicate")
    claim(id, IMP, INOTE)

PM = "src/predicates/mod.rs"
P("P12", "Point, segment and triangle incidence tests decide exactly",
  "For explicit points, the incidence tests (collinearity, same side of a line, point in open or closed segment, point in open or closed triangle, proper crossing of two open segments, of an open segment with an open or closed triangle) answer yes exactly when the geometric relation holds; same-side and in-triangle tests presuppose coplanar points and a non-degenerate triangle, the general in-segment test collinear points. The helpers that turn values into orientations, reverse them, and orient by dropped axis agree with the exact signs.",
  NUM, "all finite points, including coincident, collinear and coplanar ones",
  "Degenerate contacts (touching end points, vertical planes, collinear overlaps) are each their own branch; the tests' meshes contain almost none of them.",
  [PM], [("incidence tests", PM)], "boolean answer or orientation returned by the functions")
claim("P12", "abstract interpretation of MIR with trace partitioning over determinant signs; finite sign-pattern domain reduced by geometric constraints, answer must be entailed",
      "Orientation predicates are taken by contract (P02, P03, P11). For the segment-triangle test, coordinate comparisons are tracked on one axis at a time with a family of relative positions on the two others.")
P("P13", "The dominant axis of a triangle's normal never has a vanishing component",
  "For every non-degenerate triangle the chosen axis is 0, 1 or 2 and the exact normal component along it is not zero, so projecting the triangle along that axis keeps it non-degenerate.",
  NUM, "all triangles with finite coordinates, without overflow or underflow, including long thin ones",
  "For ordinary triangles any large component works; only almost degenerate triangles show a wrong error bound or a wrong exact comparison.",
  [PM], [("max_comp_in_tri_normal and its filter", PM)], "axis returned by max_comp_in_tri_normal")
claim("P13", "abstract interpretation of MIR with forward rounding-error analysis and trace partitioning",
      "In each class the returned component is shown non-zero by a filter whose bound exceeds the derived forward error, or largest among exact values.")

DS = "src/disjoint_set/mod.rs"
P("P14", "Disjoint sets merge exactly the groups asked for",
  "After any sequence of merges and look-ups, two elements report the same representative exactly when the merges connect them, and the number of groups equals the number of distinct representatives. The grouped output lists every element exactly once, together with precisely the elements of its group.",
  ["histories"], "all histories of merge and find on any number of elements",
  "Wrong behaviour shows only for particular union orders that leave deep or stale parent chains.",
  [DS], [("DisjointSet new/find_set/merge/output", DS)], "representatives, group count and grouped output")
claim("P14", "per-operation abstract interpretation of MIR on an arbitrary forest materialised lazily; inductive invariant (forest with counted roots)",
      "Each operation is shown to preserve the partition from an arbitrary forest (chains up to the stated depth); histories follow by induction. Compression and link direction are free.")
MS = "src/mesh/surface_mesh.rs"
MFILES = [MS, "src/mesh/manifold_mesh.rs", "src/mesh/mesh.rs", "src/mesh/mesh_core_data.rs", "src/mesh/element/"]
P("P15", "Mesh edits keep the half-edge structure consistent",
  "Splitting an edge, splitting a face, adding a face from half-edges and adding elements take a consistent half-edge mesh to a consistent one: face loops stay closed, every half-edge of an edge joins the edge's two end points and is reachable from it, and incoming and outgoing half-edges of a vertex form complete rings. The edited region is as requested - the new vertex lies between the edge's end points in every face that used the edge, the split face is divided along the new edge between the two given corners - and everything else is unchanged.",
  ["histories"], "all consistent meshes, including non-manifold edges and boundary edges, and every admissible edit",
  "The library's users split non-manifold edges with many faces in many orientations; a link left dangling is noticed only by a later traversal through exactly that link.",
  MFILES, [("SurfaceMesh split_edge, split_face, add_face_by_halfedges, new_*", MS)], "connectivity arrays as read through the public navigation functions")
claim("P15", "abstract interpretation of MIR on a lazily materialised arbitrary half-edge mesh (shape analysis with trace partitioning); representation invariant checked on every exit",
      "Shapes are enumerated up to the bound in the evidence (faces per edge, ring sizes); cells the edit never reads are arbitrary.")
P("P16", "Mesh navigation visits exactly the incident elements",
  "On every consistent mesh each navigation function returns the element its name says (next, previous, twin, vertex, tip, edge, face, sibling), and each iterator around a face, edge or vertex yields every incident element exactly once and terminates. Iterating over all vertices, half-edges, edges or faces yields exactly the live ones in index order.",
  ["inputs"], "all consistent meshes including non-manifold edges and vertices",
  "Tests walk a few closed manifold shapes, where a navigator that skips a non-manifold sibling or an incoming half-edge looks right.",
  MFILES, [("navigation methods and iterators", "src/mesh/element/")], "elements returned by navigation functions and iterators")
claim("P16", "abstract interpretation of MIR on a lazily materialised arbitrary half-edge mesh (shape analysis with trace partitioning)",
      "Shapes are enumerated up to the bound in the evidence; longer rings repeat the same loop body.")

GC = "src/graphcut/mod.rs"
PF = "src/graphcut/push_relabel_fifo.rs"
P("P17", "Max-flow solvers report a minimum cut",
  "On every network both flow solvers stop, and the sides they report for the nodes form a cut separating the source from the sink whose weight is the least of all cuts; the flow value returned equals that weight. A network assembled arc by arc through the builder means the same network.",
  NUM, "all non-negative capacities, including zero and equal ones, on each network shape; capacities whose sums and differences are exact",
  "Which node is relabelled, orphaned or left unlabelled depends on the exact order of capacities; tests run one or two networks with fixed numbers.",
  [GC, PF], [("GraphCut (Boykov-Kolmogorov trees)", GC), ("PushRelabelFifo, ArcBuilder", PF)], "sides reported per node and the flow value")
claim("P17", "abstract interpretation of MIR in the convex polyhedra domain (capacities as linear forms, classes as cones of capacity vectors) with trace partitioning",
      "Holds for all capacities of each listed network shape (all arc subsets of a four-node network, and selected shapes up to eleven nodes); other shapes are not covered.")
TT = "src/triangle/tetrahedron.rs"
P("P18", "Tetrahedron versions move to the edge and face they name",
  "For each of the twelve versions of a tetrahedron, origin, destination, apex and opposite vertex are its four vertices in an even order, and next, previous and symmetric edge moves, alone or combined, lead to the version with the vertices their definition demands. Two tetrahedra glued along any pair of faces are reached from each other by crossing that face with the shared edge reversed, and crossing back returns to the start.",
  NUM, "all versions of a tetrahedron and all ways of gluing two of them",
  "A wrong entry in one lookup table affects one of 144 gluings, which a given mesh need not contain.",
  [TT], [("version tables, TriFace moves, bond/fsym/fnext", TT)], "vertices and versions returned by the navigation functions")
claim("P18", "abstract interpretation of MIR on opaque vertices; exhaustive over the finite domain of versions and gluings",
      "The domain is finite (12 versions, 144 gluings), so this is complete for the version algebra.")
P("P19", "Incremental tetrahedralization builds exactly the specified complex",
  "Wherever each new point lies - inside a tetrahedron, on a face or an edge, outside the hull or coplanar with hull faces, on an existing point - the mesh afterwards is the one obtained by replacing the tetrahedra in conflict with the point by its cone over their boundary: mutual neighbour links, positive orientation, hull tetrahedra with the ghost vertex last. The finished mesh has no deleted or marked tetrahedra, maps every inserted point to a real tetrahedron containing it and leaves duplicates out; input that spans no tetrahedron gives an empty mesh.",
  ["histories"], "all sequences of point locations, conflict regions and degenerate positions",
  "Random points are never on a face, an edge or coplanar with the hull, and cavities of more than a thousand faces never arise in the tests.",
  [TT], [("tetrahedralize, insert_vertex_bw, locate_dt, initial_delaunay, incident", TT)], "tetrahedra, links, orientation and point map of the mesh returned")
claim("P19", "abstract interpretation of MIR with the geometric predicates replaced by an abstract arrangement (location and conflict set chosen nondeterministically); final shape compared with the specified complex",
      "All arrangements of the fifth point, a deterministic sample for the sixth and seventh; insertion order is the index order; both sides of the cavity-size limit are taken.")
P("P20", "Perturbed in-sphere test decides every tie consistently",
  "The perturbed in-sphere test answers the in-sphere sign whenever that is not zero. On a tie its answer is the sign of the same perturbed determinant whatever order the points are given in, and it is zero only if all five points are coplanar.",
  NUM, "all five points in any order, including cospherical ones",
  "Cospherical points are rare in test data, and an inconsistent tie-break shows up only as an occasional inverted tetrahedron.",
  [TT], [("insphere_s", TT)], "orientation returned by the perturbed test")
claim("P20", "abstract interpretation of MIR with trace partitioning over predicate signs; exhaustive over index orders",
      "The predicates consulted are taken by contract (P03, P05); all 120 orders and all sign outcomes are enumerated, so this is complete given the contracts.")
P("P21", "Spatial sorting keeps every point exactly once",
  "Sorting point indices along the multiscale space-filling curve terminates and yields the same indices, each exactly once, for every position of the points, including points on splitting planes and coincident points.",
  NUM, "all coordinates and bounding boxes",
  "Points exactly on a splitting plane do not occur in random data.",
  [TT], [("brio_multiscale_sort, hilbert_sort, hilbert_split", TT)], "index list after sorting")
claim("P21", "abstract interpretation of MIR with trace partitioning over all comparison outcomes",
      "For the listed numbers of points (up to five), thresholds and recursion depths; coordinates are arbitrary.")
TR = "src/triangle/triangle.rs"
P("P22", "Planar triangulation is the constrained Delaunay triangulation",
  "Triangulating distinct points in the plane yields counter-clockwise triangles that cover exactly the convex hull, use every point and are Delaunay; given boundary polygons they cover exactly the side to the left of the boundary, every boundary segment is a chain of edges even when it runs through other points, and every other edge is locally Delaunay. Polygons given in a spatial frame are triangulated by their coordinates in that frame and answered in the original indices, polygon by polygon.",
  NUM, "all point sets, including collinear and cocircular points, and simple boundary polygons",
  "Hull merging, edge flipping and segment insertion each have branches that need a particular degenerate constellation, such as a segment meeting a vertex after crossing edges.",
  [TR], [("triangulate (divide and conquer, segment insertion, carving), triangulate_polygon, triangulate_polygon_soup", TR)], "index triples returned")
claim("P22", "abstract interpretation of MIR over predicate sign vectors (coordinates opaque; one abstract state per sign vector of orientation, in-circle and coordinate order)",
      "Each sign vector stands for all inputs with these signs; the sign vectors are those of integer configurations (all of four points, a deterministic sample of five to twelve points and two full grids); larger inputs are not covered.")
P("P23", "A polygon soup becomes the half-edge mesh it denotes",
  "Building the half-edge mesh from a list of polygons gives one half-edge per polygon corner, in order, whose face, origin and next are those of the polygon, and one edge per undirected vertex pair. All half-edges of an edge form one sibling ring and those ending or starting at a vertex one ring each, however many polygons meet and however they are oriented; unused vertex indices become invalid vertices, and counts and handles agree.",
  ["inputs"], "all lists of polygons without repeated vertices, manifold or not",
  "Rings are linked per edge and per vertex from a hash table; only particular mixes of orientations and multiplicities show a ring that is cut short or merged.",
  MFILES, [("SurfaceMesh::new, vertex_cycle", MS)], "connectivity arrays as read through the public navigation functions")
claim("P23", "abstract interpretation of MIR; one abstract state per order type of the vertex indices, final store compared with the mesh denoted",
      "All soups of up to two triangles on four vertices (three without rotations), mixed triangles and quadrilaterals, edges shared by up to five polygons and selected larger soups; both traversal orders of the edge table.")
CM = "src/polygonlization/conforming_mesh.rs"
BS = "src/polygonlization/bsp_complex.rs"
P("P24", "One-sided edges of coplanar sheets get a virtual constraint",
  "When all input triangles at an edge lie in one plane and on one side of the edge, exactly one extra triangle through that edge and a mesh vertex off the plane is added, so that the subdivision is also cut along the boundary of the sheet. No other triangle is added, and the input triangles keep their order and their count.",
  ["inputs"], "all lists of triangles on the vertices of a tetrahedral mesh, in any vertex order and with any number of triangles per edge",
  "The models in the tests are closed surfaces, where no edge is one-sided, so the code never adds a triangle there.",
  [CM], [("Constraints::place_virtual_constraints, add_virtual_constraint", CM)], "list of constraint triangles")
claim("P24", "abstract interpretation of MIR over predicate sign vectors (coordinates opaque), compared with the exact set of one-sided edges",
      "Sign vectors of a deterministic sample of point sets (five to nine points, rich in coplanarities), both traversal orders of the edge table; larger inputs are not covered.")
P("P25", "Every tetrahedron a triangle cuts is found",
  "For each constraint triangle whose corners are mesh vertices, every tetrahedron whose interior it enters is recorded for splitting, and none that its plane does not separate; each tetrahedron face in its plane that it overlaps is recorded with it, and no face off its plane. Hull tetrahedra are never recorded, nothing is recorded twice, and the mesh is left unchanged and unmarked.",
  ["inputs"], "all triangles on mesh vertices in every position relative to the tetrahedra: through vertices, along edges, inside faces",
  "A triangle running exactly through vertices or along edges of the mesh takes branches that random geometry never reaches, and one missed tetrahedron leaves a hole only in special views.",
  [CM], [("Constraints::insert_constraints and the walks and intersection tests it uses", CM)], "lists of constraints per tetrahedron and per face")
claim("P25", "abstract interpretation of MIR over predicate sign vectors (coordinates opaque), compared with exact intersection of triangle and tetrahedra",
      "Sign vectors of a deterministic sample of point sets and triangulations (five to nine points, rich in coplanar and collinear points), sampled triangles on them; larger inputs are not covered.")
P("P26", "Splitting cells yields the exact arrangement of the triangles",
  "Once no cell has triangles left, the cells are closed convex polyhedra with planar convex faces that exactly fill the hull of the input, each face bounds the cells it names and is oriented towards the first, and no two vertices coincide. No input or virtual triangle enters the interior of a cell. Every face is covered by the input triangles in its plane entirely or not at all, and carries all those covering it and only triangles of its plane.",
  ["inputs"], "all sets of triangles on mesh vertices, including triangles that cross, touch, overlap in one plane with either orientation, or meet three in a point",
  "Whether a cell is split correctly depends on the order of earlier splits and on exact coincidences between planes; tests check final output of two models, where a missed split only shows as a local flaw.",
  [BS], [("BSPComplex::new, split_cell and the functions they use", BS)], "cells, faces and triangles attached to faces of the complex")
claim("P26", "abstract interpretation of MIR over predicate sign vectors (coordinates opaque), compared with the exact arrangement",
      "Sign vectors of a deterministic sample of point sets and triangulations with one to five triangles each; larger inputs are not covered.")
P("P27", "Each shell poses the cut problem whose zero-cost answer is its inside",
  "For every shell a cut problem over the cells and the outside is posed: cells that share a face no triangle of the shell covers are held together by that face's share of the total area, in both directions. A covered face holds nothing together and instead draws the cell behind the triangle to the inside and the cell in front to the outside, each with half its share; the outside itself is drawn outwards with weight one. So cutting along a closed, consistently oriented shell costs nothing, and only cells it encloses are drawn inside.",
  ["inputs"], "all finished subdivisions and all assignments of their triangles to shells in which the triangles of a shell covering one face agree in orientation",
  "A face judged uncovered or a pull on the wrong side changes the minimum cut only when the weights are close; tests run two models and never look at the network.",
  [BS], [("BSPComplex::complex_partition", BS), ("BSPComplex::face_intersects_tri", BS), ("BSPComplex::point_in_face", BS), ("ArcBuilder", "src/graphcut/mod.rs")], "the arcs and capacities handed to the maximum-flow solver")
claim("P27", "abstract interpretation of MIR over predicate sign vectors with exact evaluation of areas and averages, compared with exact coverage of faces by triangles",
      "A deterministic sample of subdivisions, one and two shells; face averages both exact and rounded onto a vertex. Rounding of areas is not modelled.")
P("P28", "The output is the oriented closed boundary of the cells kept",
  "Whatever cells are kept, the triangles returned cover the boundary of their union exactly once, facing outwards, and nothing else; they meet edge to edge, so that every directed edge is matched by the opposite one. Every output point is a vertex of the subdivision, none is returned twice and no triangle is degenerate.",
  ["inputs"], "all finished subdivisions and all selections of their cells, including selections whose boundary touches itself in a vertex or an edge, has holes, or falls into several pieces",
  "Outlines that touch themselves, holes and faces merged from many pieces only occur for special selections; tests check that two models produce some output.",
  [BS], [("BSPComplex::complex_partition", BS), ("BSPComplex::merge_faces", BS), ("BSPComplex::extract_faces_outlines", BS), ("BSPComplex::merge_colinear_edges", BS)], "points and triangles returned by complex_partition")
claim("P28", "abstract interpretation of MIR over predicate sign vectors with arbitrary cut answers, compared with the exact boundary of the kept cells",
      "A deterministic sample of subdivisions and of selections of their cells (random, connected, nearly all); planar triangulation is taken by its contract P22.")

