REALS = "Doubles are treated as exact reals; the VC generator, solvers, gcc -E and pycparser are trusted."
prop("C10", "Affine maps move every vertex by the documented map and nothing else",
 "Rotating, translating, scaling, shearing or applying a homogeneous affine matrix to a polygon, polyhedron or N-dimensional polytope moves every one of its vertices to exactly the image documented for that map. Vertex count, connectivity and storage beyond the vertex count are unchanged. This holds for every axis choice, every matrix with non-zero homogeneous weight and every vertex count from zero to capacity.",
 "all polytopes of every vertex count up to capacity, all parameters", "Tests transform a few fixed shapes by a few maps (several functions are never called by them); they cannot cover all axes, matrices and vertex counts.",
 ["src/r2d.c", "src/r3d.c", "src/rNd.c"], [("r2d/r3d/rNd _rotate, _translate, _scale, _shear, _affine", "vertex loops in src/r2d.c, src/r3d.c, src/rNd.c")],
 note="Unbounded proof of 15 functions. " + REALS, observe=["vertex positions, neighbour indices and counts after the call"])
prop("C01", "Clipping a polygon yields exactly its intersection with the half-planes",
 "r2d_clip replaces a polygon by its intersection with all given half-planes (signed distance >= 0). Vertices inside every half-plane survive at their exact positions with their edges, every crossing edge ends at the point where it meets the line, and nothing lies outside a half-plane or the original polygon; a polygon with no vertex strictly inside some half-plane becomes empty. The result is again a well-formed polygon: all neighbour links in range and mutual, vertex numbers contiguous.",
 "every polygon (convex or not, any vertex order) whose cut vertices fit the buffer, every number of planes in every position, including planes through vertices", "Tests clip random tetrahedra-like shapes with a handful of planes and compare areas; they never settle degenerate positions, non-convex pieces or link structure for all inputs.",
 ["src/r2d.c"], [("r2d_clip", "src/r2d.c: distance, insertion, relink, compress and reindex loops")], note="Unbounded proof of every loop; capacity of the 2D buffer is a precondition. " + REALS, observe=["poly->nverts, positions and pnbrs after r2d_clip"])
prop("C02", "Clipping a polyhedron yields exactly its intersection with the half-spaces",
 "r3d_clip replaces a polyhedron by its intersection with all given half-spaces (signed distance >= 0): inner vertices survive at their positions with their edges in the same slots, every crossing edge ends at its intersection point, the cut vertices are linked around the new faces, and nothing lies outside a half-space or the original. The result is a well-formed vertex graph; a polyhedron with no vertex strictly inside some half-space becomes empty. The return value is 0 exactly when the input is empty or the vertex buffer would overflow (nothing is ever written past it), otherwise 1.",
 "every valid polyhedron without doubled edges up to full buffer capacity, every number and position of planes", "Tests clip small convex shapes and compare volumes; they do not reach full buffers, degenerate planes or the link structure for all inputs.",
 ["src/r3d.c"], [("r3d_clip", "src/r3d.c: distance, insertion, relink, compress and reindex loops")], note="Unbounded proof of every loop and of the capacity guard. " + REALS, observe=["poly->nverts, positions, pnbrs and return value of r3d_clip"])
prop("C11", "Constructors build exactly the shape they are given, oriented and well formed",
 "r2d_init_box, r2d_init_poly, r3d_init_box, r3d_init_tet, rNd_init_box and rNd_init_simplex produce a polytope whose vertices are exactly the given points or box corners, each once and at the right position. Its links are in range, mutual and free of duplicates, every link is an edge of the shape, and vertices are ordered with the orientation the library expects (counter-clockwise in 2D, the same handedness at every vertex in 3D, matching the sign of the input volume). In N dimensions the 2-face numbers are consistent: all vertices of a 2-face carry the same number for it, and different 2-faces meeting at a vertex have different numbers.",
 "all bounds, all point sets, all vertex counts up to capacity", "Tests build a few fixed or random shapes and look at total volumes; a wrong link order, position or face number on some slot is invisible to them.",
 ["src/r2d.c", "src/r3d.c", "src/rNd.c"], [("r2d_init_box, r2d_init_poly", "src/r2d.c"), ("r3d_init_box, r3d_init_tet", "src/r3d.c"), ("rNd_init_box, rNd_init_simplex", "src/rNd.c")],
 note="Unbounded in coordinates and in the vertex count of r2d_init_poly; fixed topologies are executed symbolically in full. " + REALS, observe=["poly->nverts, positions, pnbrs, finds, nfaces after construction"])
prop("C13", "Face helpers return the unit inward planes of the shape they are given",
 "The planes returned by r2d/r3d_box_faces_from_verts have unit normals and intersect exactly to the box. r3d_tet_faces_from_verts returns for each face a unit-normal plane through its three vertices with a positive tetrahedron on its inner side; r2d_poly_faces_from_verts and r3d_poly_faces_from_verts return for every edge or planar face a unit-normal plane containing it, oriented by the vertex order (left of each edge in 2D, right-hand rule of the listed corners in 3D).",
 "all boxes, tetrahedra, polygons and polyhedra with planar convex faces, of any size", "Tests use these helpers on a handful of shapes as clip inputs; sign, offset and normalisation for arbitrary shapes and face sizes are not settled.",
 ["src/r2d.c", "src/r3d.c"], [("r2d_box_faces_from_verts, r2d_poly_faces_from_verts", "src/r2d.c"), ("r3d_tet/box/poly_faces_from_verts", "src/r3d.c")],
 note="Unbounded proof; unit length up to the 1e-299 guard of the norm macro. " + REALS, observe=["plane normals and offsets returned"])
prop("C14", "Orientation functions return the exact signed volume of the simplex",
 "r2d_orient, r3d_orient and rNd_orient return the signed area or volume of the simplex spanned by the given points: the determinant of the edge vectors divided by the factorial of the dimension, positive for positively ordered points and zero for degenerate ones. The N-dimensional determinant used for it is the determinant of its matrix, which it leaves unchanged.",
 "all point configurations", "Tests only take random well-shaped simplices; sign and value on all configurations are not settled by samples.",
 ["src/r2d.c", "src/r3d.c", "src/rNd.c"], [("r2d_orient", "src/r2d.c"), ("r3d_orient", "src/r3d.c"), ("rNd_orient, rNd_det", "src/rNd.c")],
 note="Unbounded proof by ring identities. " + REALS, observe=["return values"])
prop("C16", "Index boxes enclose the polytope tightly and clamping cuts exactly to the grid",
 "get_ibox (2D, 3D, ND) returns the smallest box of grid indices that contains every vertex: floor of the minimum and ceiling of the maximum over the spacing, on every axis. clamp_ibox replaces the index box by its intersection with the clamp box and the polytope by exactly its part inside the clamp box; when the boxes do not overlap, the polytope becomes empty and the index box empty. Nothing outside these objects is written.",
 "all polytopes up to capacity, all positive spacings, all index and clamp boxes", "Tests call these only through rasterisation on grids that mostly contain the shape; partial overlaps per axis and exact cell boundaries are not enumerated.",
 ["src/v2d.c", "src/v3d.c", "src/vNd.c"], [("r2d/r3d/rNd_get_ibox", "src/v2d.c, src/v3d.c, src/vNd.c"), ("r2d/r3d/rNd_clamp_ibox", "src/v2d.c, src/v3d.c, src/vNd.c")],
 note="Unbounded proof; clamp_ibox is verified against the clip contract. Coordinates below 1e30, indices fit an int. " + REALS, observe=["ibox, poly after the call"])
prop("C07", "2D moments are the exact polynomial integrals over the polygon",
 "r2d_reduce returns, for every exponent pair up to the requested order, the integral of x^i y^j over the polygon, stored in the documented order (by total order, then falling power of x). The value is signed by orientation, is zero for an empty polygon, covers every edge once whatever the vertex numbering, and the polygon is left unchanged; nothing outside the moment array is written.",
 "every polygon up to capacity (convex or not, several components), every polynomial order", "Tests compare low orders on clipped simplices with quadrature; they cannot cover every order, index and vertex numbering.",
 ["src/r2d.c"], [("r2d_reduce", "src/r2d.c: recursion over edges and orders, normalisation"), ("r2d_shift_moments, r2d_poly_center", "src/r2d.c")],
 note="The recursion, its bookkeeping and the sums are proved for every order and vertex count; recursion = integral by ring identities up to order 6. " + REALS, observe=["moments array after r2d_reduce"])
prop("C08", "3D moments are the exact polynomial integrals over the polyhedron",
 "r3d_reduce returns, for every exponent triple up to the requested order, the integral of x^i y^j z^k over the polyhedron, stored in the documented order (by total order, then falling powers of x and y). Every face is traversed exactly once and triangulated completely whatever the vertex numbering, the value is signed by orientation and zero for an empty polyhedron, the polyhedron is left unchanged, and nothing outside the moment array is written.",
 "every valid polyhedron up to capacity (convex or not, several components), every polynomial order", "Tests compare low orders on small convex shapes; they cannot cover every order, index, face walk and vertex numbering.",
 ["src/r3d.c"], [("r3d_reduce", "src/r3d.c: face walk, recursion over orders, normalisation"), ("r3d_shift_moments, r3d_poly_center", "src/r3d.c")],
 note="Face walk (termination, each half-edge once), recursion and sums proved for every order and size in the built configuration; recursion = integral by ring identities up to order 4. " + REALS, observe=["moments array after r3d_reduce"])
prop("C09", "Shifting moments gives the exact moments of the translated shape",
 "r2d_shift_moments and r3d_shift_moments turn the moments of a shape into those of the same shape translated by the given vector: each becomes the full binomial expansion over all lower moments, the zeroth is unchanged, and every index up to the order is covered. r2d_poly_center and r3d_poly_center return the mean of the vertex positions and change nothing.",
 "all moment arrays of every order, all shift vectors, all polytopes up to capacity", "Tests reach these only through low-order reductions near the origin; higher orders and far shifts are not settled by samples.",
 ["src/r2d.c", "src/r3d.c"], [("r2d_shift_moments, r2d_poly_center", "src/r2d.c"), ("r3d_shift_moments, r3d_poly_center", "src/r3d.c")],
 note="Unbounded in order and vertex count. " + REALS, observe=["moments array, returned centre"])
BND = "bounded runtime checking of the functions against independent contract oracles (functions outside the verifier's reach)"
prop("C03", "Clipping an N-dimensional polytope yields its intersection with the half-spaces",
 "rNd_clip replaces a polytope by its intersection with all given half-spaces: its vertex positions are exactly those of the intersection, its edges are the edges of the intersection, and its 2-face numbers stay consistent (one number per 2-face around each of its cycles, different numbers for different 2-faces at a vertex). A polytope with no vertex strictly inside some half-space becomes empty. This is for input polytopes whose intersections fit in the fixed vertex buffer, and planes in general position with respect to the vertices or touching them from outside.",
 "all polytopes in general position up to buffer capacity, every number and position of planes", "Tests clip a few simplices in one dimension count and only compare the zeroth moment.",
 ["src/rNd.c"], [("rNd_clip", "src/rNd.c: insertion, boundary walk over 2-faces, compress")], note="Unbounded proof at dimension 4 of positions, kept vertices and edges, cut points, emptiness, link validity. The contract of one loop, the boundary walk that closes new 2-faces, is assumed; its effect and the 2-face numbers are only checked in bounds (random convex polytopes against an exact vertex-enumeration oracle, 40 s). " + REALS, observe=["poly vertices, pnbrs, finds after rNd_clip"])
prop("C04", "Splitting a polygon yields exactly its two sides of the line",
 "r2d_split and r2d_split_coord divide a polygon by a line into the part on the positive and the part on the negative side. Every vertex goes to its side at its exact position with its edges, every crossing edge is cut at its intersection point, which appears in both parts, and together the parts make up the input. Both results are well-formed polygons, a polygon entirely on one side is returned whole on that side with the other part empty, and splitting in place gives the same result as splitting into separate outputs.",
 "every polygon whose parts fit the buffers, every line or coordinate, every batch size, in place or not", "Tests split small convex shapes once and compare the sum of areas, which cannot tell swapped or partly wrong sides, links or positions.",
 ["src/r2d.c", "src/v2d.c"], [("r2d_split", "src/r2d.c"), ("r2d_split_coord", "src/v2d.c")], note="Unbounded proof of every loop, in place and with separate outputs. " + REALS, observe=["both output polygons"])
prop("C05", "Splitting a polyhedron yields exactly its two sides of the plane",
 "r3d_split and r3d_split_coord divide a polyhedron by a plane into the part on the positive and the part on the negative side. Every vertex goes to its side at its exact position with its edges in the same slots, every crossing edge is cut at its intersection point, which appears in both parts, and the cut vertices are linked around the new faces. Both results are well-formed, a polyhedron entirely on one side is returned whole on that side with the other part empty, splitting in place equals splitting into separate outputs, and nothing is written past the vertex buffer.",
 "every valid polyhedron without doubled edges, every plane or coordinate, every batch size, in place or not", "Tests split small convex shapes and compare the sum of volumes, which cannot tell swapped or partly wrong sides, links or positions.",
 ["src/r3d.c", "src/v3d.c"], [("r3d_split", "src/r3d.c"), ("r3d_split_coord", "src/v3d.c")], note="Unbounded proof of every loop, in place and with separate outputs. " + REALS, observe=["both output polyhedra"])
prop("C06", "Splitting an N-dimensional polytope yields its two sides of the coordinate",
 "rNd_split divides a polytope by a coordinate plane: the lower output is the part of the input at or below the coordinate, the upper output the part at or above it, on the axis asked for. The input is unchanged unless it is itself the lower output, and splitting in place gives the same result.",
 "every polytope, every axis and coordinate, in place or not", "No test checks the parts of an N-dimensional split, only voxelised totals.",
 ["src/vNd.c"], [("rNd_split", "src/vNd.c")], note="Unbounded proof over the contract of rNd_clip (C03: proved but for one assumed loop contract). " + REALS, observe=["both output polytopes"])
prop("C12", "Building polyhedra from face lists and reading faces back are exact inverses",
 "r3d_init_poly builds, from vertices and faces given in any order and starting corner, a well-formed three-valent polyhedron of the same region and moments, splitting vertices of higher degree into coincident ones, and returns 0 when some vertex belongs to fewer than three faces or when the vertices or the face corners exceed the vertex buffer. r3d_init_brep returns exactly the faces of a polyhedron: every directed edge lies in exactly one face cycle, vertex indices are in range, empty polyhedra give an empty list, and r3d_free_brep releases everything once. Neither function reads or writes out of bounds.",
 "all polyhedra given by face lists within capacity, including full buffers and vertices of high degree", "Tests build a few fixed shapes; they never cover arbitrary face orders, vertex degrees, full buffers or the read-back lists.",
 ["src/r3d.c"], [("r3d_init_poly", "src/r3d.c"), ("r3d_init_brep, r3d_free_brep", "src/r3d.c")], level="exploration", tech=BND, note="Bounded: random closed face lists of every vertex degree against an independent oracle under address sanitizer, 40 s each.", observe=["polyhedron built, brep face lists"])
prop("C15", "Validity checks in 2D and 3D accept exactly the well-formed polytopes",
 "r2d_is_good and r3d_is_good return 1 for exactly those polytopes with mutual links that are well formed: every neighbour index in range, no vertex linked to itself or twice to the same neighbour, every vertex referenced as often as it has links, and in 3D no component that falls apart when two of its vertices are removed. They return 0 for all others, change nothing, and stay within their buffers for every vertex count up to capacity and any garbage in the links.",
 "all vertex graphs of every vertex count up to capacity, including corrupt ones", "Tests call these only on valid results of other functions, so that a check that accepts everything would pass.",
 ["src/r2d.c", "src/r3d.c"], [("r2d_is_good", "src/r2d.c"), ("r3d_is_good", "src/r3d.c")], note="Unbounded proof of both directions, of termination and of the work stack's size, for every graph.", observe=["return values"])
prop("C17", "Rasterizing gives every grid cell the exact moments of its part of the polygon",
 "r2d_rasterize adds to every cell of the destination grid, for every moment up to the requested order, exactly the moments of the part of the polygon inside that cell, at the documented row-major place. Cells the polygon misses and everything else in memory keep their values, the sum over all cells gains the moments of the whole polygon, and the work stack never overflows for any grid size and aspect ratio. Nothing is done for an empty polygon or box; polygon and index box are unchanged.",
 "all polygons inside their index box, all index boxes and offsets, all positive spacings, all orders", "Tests rasterize a few shapes on one grid and compare only the total over cells, which cannot tell misplaced cells, wrong strides or overwritten values.",
 ["src/v2d.c"], [("r2d_rasterize", "src/v2d.c")], note="Unbounded proof over the contracts of r2d_split_coord (C04) and r2d_reduce (C07). " + REALS, observe=["destination grid"])
prop("C18", "Voxelizing gives every grid cell the exact moments of its part of the polyhedron",
 "r3d_voxelize adds to every cell of the destination grid, for every moment up to the requested order, exactly the moments of the part of the polyhedron inside that cell, at the documented row-major place. Cells the polyhedron misses and everything else in memory keep their values, the sum over all cells gains the moments of the whole polyhedron, and the work stack never overflows for any grid size and aspect ratio. Nothing is done for an empty polyhedron or box; polyhedron and index box are unchanged.",
 "all polyhedra inside their index box, all index boxes and offsets, all positive spacings, all orders", "Tests voxelize a few shapes on one grid and compare only the total over cells, which cannot tell misplaced cells, wrong strides or overwritten values.",
 ["src/v3d.c"], [("r3d_voxelize", "src/v3d.c")], note="Unbounded proof over the contracts of r3d_split_coord (C05) and r3d_reduce (C08). " + REALS, observe=["destination grid"])
prop("C19", "N-dimensional voxelizing gives every cell the volume of its part of the polytope",
 "rNd_voxelize adds to every cell of the destination grid exactly the zeroth moment of the part of the polytope inside that cell, at its row-major place. Cells the polytope misses and everything else in memory keep their values, the sum over all cells gains the volume of the whole polytope, and the work stack never overflows for any grid size and aspect ratio. Nothing is done for an empty polytope or box; polytope and index box are unchanged. rNd_reduce, which it uses, returns the volume of a polytope.",
 "all polytopes inside their index box, all index boxes and offsets, all positive spacings", "Tests voxelize a few shapes on one grid and compare only the total over cells, which cannot tell misplaced cells, wrong strides or overwritten values.",
 ["src/vNd.c", "src/rNd.c"], [("rNd_voxelize", "src/vNd.c"), ("rNd_reduce", "src/rNd.c")], note="Unbounded proof of rNd_voxelize over the contracts of rNd_split (C06) and rNd_reduce; rNd_reduce and the whole chain are also checked in bounds at run time. " + REALS, observe=["destination grid"])
prop("C20", "The N-dimensional validity check accepts exactly the well-formed polytopes",
 "rNd_is_good returns 1 for exactly those polytopes with mutual links that are well formed: every neighbour index in range, no vertex linked to itself or twice to the same neighbour, every vertex referenced as often as it has links, and no component that falls apart when dimension minus one of its vertices are removed. It returns 0 for all others, changes nothing, and stays within its buffers for every vertex count up to capacity and any garbage in the links.",
 "all vertex graphs of every vertex count up to capacity, including corrupt ones", "Tests call it only on valid results of other functions, so that a check that accepts everything would pass.",
 ["src/rNd.c"], [("rNd_is_good", "src/rNd.c")], note="Unbounded proof of both directions, of termination and of the work stack's size, for every graph in dimension 4.", observe=["return value"])
