"""Source of /verif/properties.jsonl (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['include/delfem2/' + f for f in files],
                          mechanism=[dict(name=n, where='include/delfem2/' + w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='include/delfem2/' + w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)


prop('C01', 'Parallel loops run every index exactly once and report errors',
     'A data-parallel loop over N (or N1 x N2) indices calls the body exactly once for every index in range and for no other, for any index type and number of workers, and has no call running or starting after it returns. '
     'When calls throw, no index runs twice, and one of the thrown exceptions reaches the caller. '
     'The loop itself introduces no data race, and library operations with a parallel switch (image ray casting) give exactly their serial result.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all worker interleavings, loop counts, index types, worker counts, and sets of throwing indices',
     'The tests compare a final array for a few loop counts with one int index type; they inject no exceptions or delays, never count calls, and never run the parallel image path.',
     ['thread.h', 'srch_trimesh3_class.h'],
     [('atomic next index shared by asynchronous workers', 'thread.h:parallel_for'),
      ('error flag and exception transport through futures', 'thread.h:parallel_for'),
      ('serial/parallel switch', 'srch_trimesh3_class.h:Intersection_ImageRay_TriMesh3')],
     ['calls of the loop body', 'return value of the loop', 'image of ray hits'])

prop('C02', 'Editing a dynamic triangle mesh keeps its connectivity consistent',
     'After any sequence of point insertions (on an element, on an edge), edge flips, edge collapses and point/element clean-ups on a triangle mesh, the adjacency is symmetric and agrees with the element list, every point refers to an element that contains it, and positively oriented planar meshes stay positively oriented and cover the same region. '
     'Each edit that reports success has its documented effect (element and vertex counts, connected pairs of points, Euler characteristic); an edit that reports failure leaves the mesh unchanged.',
     ['histories', 'inputs'],
     'all edit histories on all 2D and 3D triangle meshes with and without boundary',
     'No test executes dynamic mesh edits directly apart from a few meshing examples; consistency has to survive every order of flips, inserts and collapses, including next to boundaries and at vertices of small valence.',
     ['dtri_topology.h', 'dtri_topology.cpp', 'dtri2_v2dtri.h', 'dtri2_v2dtri.cpp', 'dtri3_v3dtri.h', 'dtri3_v3dtri.cpp'],
     [('insert/flip/collapse on element-adjacency lists', 'dtri_topology.cpp:InsertPoint_ElemEdge, InsertPoint_Elem, FlipEdge, CollapseEdge_MeshDTri'),
      ('fan traversal around a point', 'dtri_topology.cpp:MoveCCW, MoveCW, FindEdge_LookAroundPoint'),
      ('removing unreferenced points / deleted elements', 'dtri2_v2dtri.cpp:DeleteUnrefPoints, dtri_topology.cpp:DeleteTriFlag')],
     ['point and element arrays after each edit'],
     [('element adjacency', 'neighbour element across each edge, UINT_MAX on the boundary', 'dtri_topology.h:CDynTri'),
      ('point-to-element link', 'one incident element and the local index of the point', 'dtri_topology.h:CDynPntSur')])

prop('C03', 'Polygon meshing yields a valid triangulation of exactly that region',
     'Triangulating a planar region given by one outer loop and any number of holes and interior points yields positively oriented, non-overlapping triangles whose total area is the area of the region, whose boundary edges are exactly the (resampled) loop edges, and which contain every input point; without constraints the triangulation of a point set satisfies the empty-circumcircle condition. '
     'Resampled loops keep the original corners and subdivide every edge to the requested length, and invalid input loops (self-intersecting, intersecting each other) are refused.',
     ['inputs'],
     'all simple polygons with holes in either input orientation, point sets, and target edge lengths',
     'Tests only mesh a handful of fixed squares and letters; crossing-edge recovery, co-linear and co-circular points and badly oriented loops depend on the exact geometry of the input.',
     ['dtri2_v2dtri.h', 'dtri2_v2dtri.cpp', 'geo_polygon2.h', 'geo_polygon2.cpp', 'cad2_mesher.h', 'cad2_mesher.cpp'],
     [('incremental insertion with Delaunay flips', 'dtri2_v2dtri.cpp:AddPointsMesh, DelaunayAroundPoint, Meshing_Initialize'),
      ('constrained edge recovery', 'dtri2_v2dtri.cpp:EnforceEdge'),
      ('outer/hole removal and metric refinement', 'dtri2_v2dtri.cpp:MeshingInside, DeleteUnrefPoints'),
      ('loop validation and resampling', 'geo_polygon2.cpp:CheckInputBoundaryForTriangulation, FixLoopOrientation, ResamplingLoop')],
     ['points and triangles returned by GenMesh / Meshing_*'])

prop('C04', 'Mesh connectivity tables equal their definition',
     'For every triangle, quad, tetrahedral, hexahedral or mixed-element mesh, the derived tables - elements around a point, points around a point, unique edges, elements adjacent across each face, boundary faces, connected components, dihedral element pairs and unified position/texture indices - contain exactly the entries their definition gives for the element list, each once, in jagged arrays with non-decreasing offsets that end at the data size. '
     'The result does not depend on what the output arrays contained before.',
     ['inputs'],
     'all element lists (closed, open, non-manifold, disconnected, with unused points), element types and initial contents of the outputs',
     'Tests build these tables for one or two regular meshes and mostly check sizes; nothing checks irregular, open or non-manifold meshes or reused output vectors.',
     ['msh_topology_uniform.h', 'msh_topology_uniform.cpp', 'msh_topology_mix.h', 'msh_topology_mix.cpp', 'jagarray.h', 'jagarray.cpp', 'mshelm.h', 'msh_boundary.h'],
     [('counting sort into jagged arrays', 'jagarray.cpp:JArray_*, msh_topology_uniform.cpp:JArray_ElSuP_MeshElem'),
      ('face/edge matching through element-around-point', 'msh_topology_uniform.cpp:ElSuEl_MeshElem'),
      ('mixed element tables', 'msh_topology_mix.cpp')],
     ['returned index arrays'])
P[-1]['anchors']['files'] = [f for f in P[-1]['anchors']['files'] if 'boundary.h' not in f]

prop('C05', 'Generated and subdivided meshes are closed, oriented and complete',
     'Every generated closed primitive (sphere, capsule, torus, cube, closed cylinder, icosahedron, geodesic polyhedron, box of quads) is a watertight, consistently outward-oriented mesh with the requested resolution whose vertices lie on the stated surface; open primitives (open cylinder, disk, quad and hex grids) have exactly their stated boundary and cells. '
     'Subdividing a quad, hex or tet mesh refines each element into the stated number of children with shared midpoints, preserves closedness, orientation and (for linear rules) area/volume, and the reported parents agree with the new points; Catmull-Clark follows its rule. Extrusion gives positive, conforming tetrahedra. '
     'Areas, volumes, masses, centroids, normals, bounding boxes, solid angles, point transformations, unwelded and merged meshes equal their definition.',
     ['inputs', 'configurations'],
     'all resolutions and sizes of every generator and all meshes given to subdivision',
     'Tests call a few generators at one resolution and look at none of these global facts.',
     ['msh_primitive.h', 'msh_primitive.cpp', 'mshsubdiv.h', 'mshsubdiv.cpp', 'msh_geodesic_polyhedron.h', 'msh_geodesic_polyhedron.cpp', 'mshmisc.h', 'mshmisc.cpp', 'msh_normal.h', 'msh_normal.cpp', 'msh_center_of_gravity.h', 'msh_center_of_gravity.cpp', 'msh_boundingbox.h', 'msh_boundingbox.cpp', 'msh_affine_transformation.h', 'msh_affine_transformation.cpp', 'msh_unindexed.h'],
     [('grid-wise generators', 'msh_primitive.cpp'), ('edge-midpoint bookkeeping', 'mshsubdiv.cpp'), ('area/volume/centroid/normals/bounding box', 'mshmisc.cpp, msh_center_of_gravity.cpp, msh_normal.cpp, msh_boundingbox.cpp')],
     ['coordinates and element indices'])

prop('C06', 'Bounding-volume hierarchies never lose a query result',
     'A hierarchy built over any set of elements (top-down or Morton order, boxes or spheres) is a binary tree with every element in exactly one leaf and every volume enclosing its descendants with the requested margin, also after the geometry moved and was refitted. '
     'Every query through it - point, ray, line, range, nearest point, nearest-distance bounds, nearest or included triangle, self-proximity, intersecting triangle pairs, ray casting, signed distance and projection out of a mesh - returns the same answer as testing all elements one by one. The 2D/3D boxes and spheres themselves answer union, overlap, inclusion and distance exactly.',
     ['inputs', 'histories'],
     'all point/triangle sets (including single, coincident, collinear and degenerate ones), volume types, deformations between refits, and queries',
     'Tests compare a few hundred random queries on one sphere mesh; coincident centres, single elements, refits and unusual rays are not reached.',
     ['srch_bvh.h', 'srch_bvh.cpp', 'srch_bv3_aabb.h', 'srch_bv3_sphere.h', 'srch_bv2_aabb.h', 'srch_trimesh3_class.h', 'srch_bruteforce.h', 'srch_bruteforce.cpp', 'srch_selfintersection_bvh.h'],
     [('top-down and Morton topology', 'srch_bvh.cpp:BVHTopology_TopDown_MeshElem, BVHTopology_Morton'),
      ('volume union and predicates', 'srch_bv3_aabb.h, srch_bv3_sphere.h, srch_bv2_aabb.h'),
      ('pruned traversal', 'srch_bvh.h:BVH_GetIndElem_Predicate, BVH_IndPoint_NearestPoint'),
      ('mesh queries', 'srch_trimesh3_class.h')],
     ['returned element indices and distances', 'node and volume arrays'])

prop('C07', 'Spatial indices return exactly what a full scan returns',
     'The k-d trees (points, triangles) and the uniform and hashed grids hold every inserted item once and answer every nearest-neighbour and cell-neighbourhood query with the same items (or an item at the same distance) as a scan over all items, for any query location inside or outside the indexed region and also after items moved. '
     'A neighbourhood query of the uniform grid returns all items within one cell size. The cubic grid weights sum to one, reproduce positions and their gradient is the derivative of the weight.',
     ['inputs', 'histories'],
     'all item sets including duplicates and collinear points, and all queries',
     'Tests use a few uniformly random point sets; duplicates, clustered points, empty cells and far-away queries decide the pruning.',
     ['srch_kdtree.h', 'srch_kdtree_tri.h', 'srchgrid.h', 'grid3hash.h', 'grid2.h', 'clusterpoints.h', 'clusterpoints.cpp'],
     [('median split and pruned search', 'srch_kdtree.h'), ('triangle k-d tree', 'srch_kdtree_tri.h'), ('cell hashing', 'grid3hash.h, srchgrid.h')],
     ['query results'])

prop('C08', 'Distances, nearest points and intersections of primitives are exact',
     'For lines, segments, planes, triangles, quads, tetrahedra, polylines and boxes, a reported nearest point lies on the primitive, matches the reported parameters and is no farther than any other point of it; a reported intersection lies on both primitives and exists exactly when they intersect (away from ties). '
     'Lengths, areas, volumes, solid angles, barycentric coordinates, circumcentres and heights satisfy their defining equations, and are invariant under rigid motion and relabelling.',
     ['inputs'],
     'all positions of the primitives and queries, including nearest features that are vertices, edges and faces and near-degenerate ones',
     'Each routine has a case split over vertex/edge/face regions; the few fixed or random tests do not visit all regions or compare with an independent minimiser.',
     ['geo_edge.h', 'geo_edge.cpp', 'geo_line.h', 'geo_line.cpp', 'geo_plane.h', 'geo_plane.cpp', 'geo_tri.h', 'geo_tri.cpp', 'geo_tet.h', 'geo_tet.cpp', 'geo_quad.h', 'geo_quad.cpp', 'geo_aabb.h', 'geo_polyline.h', 'geo_polyline.cpp', 'point_on_surface_mesh.h'],
     [('region case splits', 'geo_tri.cpp, geo_edge.cpp, geo_quad.cpp'), ('ray/line intersection', 'geo_tri.cpp, geo_line.cpp'), ('arc-length walks', 'geo_polyline.cpp')],
     ['returned points, parameters and flags'])

prop('C09', 'Convex hulls and convex collision tests are correct',
     'The 2D and 3D convex hull of any point set in general position is convex, outward oriented and closed, has only input points as vertices and contains all of them. '
     'The GJK and separating-axis tests report overlap of two convex sets exactly when they overlap (away from touching), agree with each other, and a reported penetration vector separates the sets when applied and is not longer than needed along its direction.',
     ['inputs'],
     'all point sets and pairs of convex sets at any relative placement',
     'The tests use a few shapes and random hulls, and are known to fail on rare random inputs.',
     ['geo_convhull2.h', 'geo_convhull3.h', 'geo_gjksat2.h', 'geo_gjksat3.h'],
     [('incremental / sweep hull', 'geo_convhull2.h, geo_convhull3.h'), ('simplex evolution', 'geo_gjksat2.h, geo_gjksat3.h'), ('penetration', 'geo_gjksat2.h')],
     ['hull indices', 'overlap flags', 'penetration vectors'])

prop('C10', 'Continuous collision detection misses no first contact',
     'For linearly moving vertex-face and edge-edge pairs, the continuous collision test reports a contact whenever the pair meets during the step, the reported time and coordinates place both features at the same position, and it reports none for pairs that stay apart by a clear margin. Collision impulses conserve linear and angular momentum and push a pair that would meet apart along the line between its features; rigid impact zones move rigidly with the same momenta.',
     ['inputs'],
     'all positions and velocities with transversal contact in the step, and all pairs that stay clear of each other',
     'The cubic coplanarity root search depends on the sign pattern of the polynomial; the tests contain no contact sweep.',
     ['geo_ccd.h', 'geo_ccd.cpp', 'cloth_selfcollision.h', 'cloth_selfcollision.cpp'],
     [('coplanarity cubic root search', 'geo_ccd.cpp'), ('contact pair collection and response', 'cloth_selfcollision.cpp')],
     ['reported flag, time and coordinates'])

prop('C11', 'Curve operations agree with the curve they describe',
     'For quadratic, cubic and general-degree Bezier curves, B-splines and parametric pieces, evaluation equals the defining sum, derivatives are the derivatives of the position, sub-curves trace the same points, areas and lengths converge to those of fine polylines, bounding boxes contain the curve tightly, and reported nearest or intersection parameters are true ones.',
     ['inputs'],
     'all control points, parameters, degrees and subdivision counts',
     'The tests sample a few random curves with fixed tolerances; degenerate control polygons and parameters at the ends are not covered.',
     ['geo_curve_quadratic.h', 'geo_curve_cubic.h', 'geo_curve_ndegree.h', 'geo_surface_parametric.h', 'geo_polyline.h'],
     [('closed forms', 'geo_curve_quadratic.h, geo_curve_cubic.h'), ('basis recursion', 'geo_curve_ndegree.h')],
     ['returned points, parameters, lengths'])

prop('C12', 'Polynomial root isolation finds exactly the real roots in an interval',
     'Solving a quadratic, cubic or general polynomial on an interval returns every simple real root in it, once, to the requested accuracy, and nothing that is not a root, also when leading coefficients vanish; interval root counts equal the true number of distinct roots.',
     ['inputs'],
     'all coefficients with roots separated from each other and from the interval ends, including vanishing leading coefficients',
     'The tests draw random coefficients of full degree and tolerate misses at random places.',
     ['polynomial_root.h'],
     [('Sturm sequences and bisection', 'polynomial_root.h'), ('closed-form quadratic', 'polynomial_root.h:RootsInRange_QuadraticPolynomial')],
     ['returned roots'])

prop('C13', 'Vector, matrix and quaternion algebra obeys its identities',
     'Products, transposes, inverses, determinants, cross/dot products, norms, rotations from axis-angle, quaternions, Euler angles or vector pairs, affine and projection matrices obey their algebraic identities and agree across the 2D, 3D, 4D, raw-array and class interfaces and between float and double, also when an output aliases an input where the interface allows it.',
     ['inputs'],
     'all finite, well-conditioned operands including zero and small rotation angles, and all overloads',
     'The tests check a few identities for mat3 and quaternions at random points; most overloads and small-angle branches have no test.',
     ['vec2.h', 'vec2.cpp', 'vec3.h', 'vec3_funcs.h', 'vec3_funcs.cpp', 'mat2.h', 'mat2.cpp', 'mat3.h', 'mat3.cpp', 'mat3_funcs.h', 'mat3_funcs.cpp', 'mat4.h', 'mat4.cpp', 'matn.h', 'quat.h', 'quat.cpp'],
     [('component formulas', 'mat3.cpp, mat4.cpp, quat.cpp, vec3_funcs.cpp')],
     ['returned values'])

prop('C14', 'Matrix decompositions reconstruct their input',
     'Symmetric eigen decomposition, singular value decomposition and polar decomposition of any 2x2 or 3x3 matrix return orthogonal factors (rotations where promised) and correctly ordered or signed values whose product is the input, including repeated, zero and negative values; the reported derivatives of the singular values/rotations match finite differences.',
     ['inputs'],
     'all matrices, including rank-deficient, reflecting, diagonal and isotropic ones',
     'Tests decompose random full-rank matrices only.',
     ['svd3.h', 'svd3.cpp', 'mat2.h', 'mat3.h', 'mat3.cpp', 'fem_invertiblefem.h'],
     [('Jacobi iteration', 'svd3.cpp'), ('sign fixing', 'svd3.cpp:Svd3'), ('2x2 closed form', 'mat2.cpp')],
     ['returned factors'])

prop('C15', 'Sparse block matrices behave like the dense matrix they represent',
     'Assembling element matrices into a sparse block matrix, multiplying by it or by its transpose, adding to diagonals, fixing degrees of freedom, applying multi-point constraints, copying and re-initialising give exactly the dense matrix obtained by performing the same operations on a full array, for any block size and sparsity pattern, with entries outside the pattern untouched.',
     ['inputs', 'histories'],
     'all sparsity patterns, block sizes, sequences of assembly operations and boundary-condition sets',
     'Tests assemble one or two meshes and only look at the solution of the final system.',
     ['ls_block_sparse.h', 'ls_block_sparse.cpp', 'ls_masterslave.h', 'ls_masterslave.cpp', 'jagarray.h', 'jagarray.cpp'],
     [('row-pointer pattern and merge buffer', 'ls_block_sparse.h:Merge, ls_block_sparse.cpp'), ('fixed-dof handling', 'ls_block_sparse.h:SetFixedBC'), ('master-slave merging', 'ls_masterslave.cpp')],
     ['matrix-vector products and entries'])

prop('C16', 'Linear solvers return solutions and honest convergence histories',
     'For well-conditioned systems, the (preconditioned) conjugate gradient, BiCGSTAB, and COCG solvers reach the requested residual, the reported history describes the true residual, and the result is the solution of the dense system whatever the initial contents of the output; incomplete factorisation with full fill-in and block tridiagonal/pentadiagonal factorisation solve exactly. '
     'Vector primitives compute what their definition says.',
     ['inputs', 'configurations'],
     'all symmetric positive definite (or diagonally dominant nonsymmetric / complex) block systems, right-hand sides, fill levels and initial guesses',
     'Tests solve two fixed Poisson-type problems and check only iteration counts.',
     ['lsitrsol.h', 'vecxitrsol.h', 'vecxitrsol.cpp', 'ls_solver_block_sparse.h', 'ls_solver_block_sparse_ilu.h', 'ls_ilu_block_sparse.h', 'ls_ilu_block_sparse.cpp', 'ls_tridiagonal.h', 'ls_pentadiagonal.h', 'view_vectorx.h', 'matn.h'],
     [('Krylov loops', 'lsitrsol.h, ls_solver_block_sparse.h, ls_solver_block_sparse_ilu.h'), ('incomplete LU with fill-in', 'ls_ilu_block_sparse.cpp'), ('banded factorisation', 'ls_tridiagonal.h, ls_pentadiagonal.h')],
     ['solution vectors', 'residual histories'])

prop('C17', 'Element forces and stiffnesses are the derivatives of their energy',
     'For every elastic element energy (solid, membrane, bending, shell, plate, beam, rod, distance, contact, parametrisation distortion), the returned gradient is the derivative of the returned energy and the returned Hessian is the derivative of the gradient where it is documented as exact (symmetric where the unknowns are positions, positive semidefinite where it is a filtered or Gauss-Newton approximation). The energy vanishes at rest, is non-negative and invariant under rigid motion, and forces and moments balance; plate elements have the energy of plate theory under constant curvature and an isotropic one under uniform shear, whatever the shape and node numbering of the triangle; shape-sensitivity matrices are the derivative of the residual by the rest shape.',
     ['inputs'],
     'all non-degenerate rest and deformed element configurations and material parameters',
     'The tests difference a few elements at random configurations; several elements, and rigid-motion invariance, have no test.',
     ['fem_stvk.h', 'fem_stvk.cpp', 'fem_solidhyper.h', 'fem_solidhyper.cpp', 'fem_solidlinear.h', 'fem_mips.h', 'fem_mips.cpp', 'fem_distance3.h', 'fem_distance3.cpp', 'fem_discreteshell.h', 'fem_discreteshell.cpp', 'fem_quadratic_bending.h', 'fem_quadratic_bending.cpp', 'fem_rod2.h', 'fem_rod2.cpp', 'fem_rod3_darboux.h', 'fem_rod3_darboux.cpp', 'fem_rod3_straight.h', 'fem_rod3_straight.cpp', 'fem_invertiblefem.h', 'femcloth.h', 'femcloth.cpp', 'pbd_stvk.h', 'fem_mitc3.h', 'fem_dkt.h', 'defarapenergy_geo3.h'],
     [('closed-form energy derivatives', 'fem_*.cpp')],
     ['W, dW and ddW arrays'])

prop('C18', 'Finite element assembly reproduces exact solutions and conserves totals',
     'Assembled stiffness matrices and residuals of the scalar, elastic, flow and plate/shell problems reproduce linear (rigid, constant-strain) fields exactly on any mesh, have the correct null space and symmetry, and give total mass/load equal to the region measure times density/load; Newton residuals are consistent with their tangent matrices. '
     'Element shape functions and integration rules are exact for the stated polynomials.',
     ['inputs'],
     'all meshes, material parameters and fields',
     'Tests solve one problem and check that the linear solver converged.',
     ['fem_poisson.h', 'fem_poisson.cpp', 'fem_helmholtz.h', 'fem_helmholtz.cpp', 'fem_solidlinear.h', 'fem_solidlinear.cpp', 'fem_stokes.h', 'fem_stokes.cpp', 'fem_navierstokes.h', 'fem_navierstokes.cpp', 'fem_mitc3.h', 'fem_mitc3.cpp', 'fem_dkt.h', 'fem_dkt.cpp', 'femutil.h', 'femutil.cpp', 'quadrature.h', 'fem_beam2.h'],
     [('element matrices', 'fem_*.cpp'), ('gauss tables', 'quadrature.h, femutil.h')],
     ['element matrices and residuals', 'assembled products'])

prop('C19', 'Position-based and rigid-body dynamics conserve what they should',
     'Position-based constraint projections without fixed points preserve the centre of mass and angular momentum about it, never increase the violation of an isolated moderate constraint, and leave satisfied configurations unchanged; fixed points never move. Shape matching returns the best-fitting rigid copy. Rigid bodies in the plane conserve linear and angular momentum in flight, contact and friction, friction never adds energy, fixed bodies stay, and a dropped body comes to rest on the ground. The fluid grid projects a velocity field to a divergence-free one without adding energy and advects without leaving the previous range of values; hair and cloth steps keep fixed points, leave the rest shape unchanged, keep directors orthonormal and conserve the momentum of a free cloth.',
     ['inputs', 'histories'],
     'all configurations, masses, constraint sets and step sequences',
     'Tests check one gradient of one constraint by finite differences.',
     ['pbd_geo3.h', 'pbd_geo3.cpp', 'pbd_stvk.h', 'pbd_bending_for_dtri.h', 'pbd_bending_for_dtri.cpp', 'rgd_v2m3.h', 'rgd_v2m3.cpp', 'kinetic_damping.h', 'cloth_internal.h'],
     [('constraint projection', 'pbd_geo3.cpp'), ('impulse and inertia', 'rgd_v2m3.cpp')],
     ['positions and velocities before and after a step'])

prop('C20', 'Shape deformation honours its handles and rigid motions',
     'Laplacian, as-rigid-as-possible, cage and polyline deformations leave the rest shape unchanged when the handles do not move, put handles at their prescribed places (exactly where they are constraints, within the penalty\'s error where they are penalised), reproduce a translation of all handles (as-rigid-as-possible ones any rigid motion, mean-value cages any affine map), fit in the least squares sense the best rotation at each vertex, do not increase the as-rigid-as-possible energy in an iteration, and solve the linear system they define: y = alpha*A*x + beta*y for every alpha and beta with A symmetric positive.',
     ['inputs', 'histories'],
     'all meshes, handle sets and prescribed motions',
     'One test differences the ARAP energy; no test moves handles.',
     ['defarap.h', 'defarap.cpp', 'deflap.h', 'deflap.cpp', 'defarapenergy_geo3.h', 'defarapenergy_geo3.cpp', 'cagedef.h'],
     [('local/global iteration', 'defarap.cpp'), ('penalty and constraint systems', 'deflap.cpp'), ('mean value coordinates', 'cagedef.h')],
     ['deformed positions'])

prop('C21', 'Linear programming returns the true optimum or reports none',
     'For every small linear program with inequality and equality constraints, minimising or maximising, the solver returns a feasible optimal point with the matching objective value, or reports that the program is infeasible or unbounded, and terminates.',
     ['inputs'],
     'all small programs, including infeasible, unbounded, degenerate and redundant ones',
     'Fourteen fixed programs are tested; degeneracy, redundancy and cycling depend on the coefficients.',
     ['lp.h', 'lp.cpp'],
     [('two-phase simplex', 'lp.cpp')],
     ['status, solution and value'])

prop('C22', 'Text expressions evaluate as ordinary arithmetic',
     'Every well-formed arithmetic expression over numbers, named variables, operators, parentheses and the supported functions is accepted and evaluates to its mathematical value with the usual precedence and associativity, also after variable values change; text outside the language is rejected without memory errors.',
     ['inputs', 'histories'],
     'all expressions and variable assignments, and arbitrary text',
     'The test lists about twenty expressions.',
     ['parse_math_expression.h', 'parse_math_expression.cpp'],
     [('recursive operator splitting and key table', 'parse_math_expression.cpp')],
     ['accept/reject flag and value'])

prop('C23', 'Mesh files survive a write/read round trip; hostile files do no harm',
     'Writing a mesh to any supported format and reading it back gives the same points, elements and groups (to the written precision) in the same order; readers deliver the described content for every corner syntax and regardless of comments, long lines, line endings and a missing last newline. Truncated, corrupted or arbitrary files make a reader finish, normally or with a C++ exception, without a memory error, an endless loop or arrays that do not fit together.',
     ['inputs', 'fault_sequences'],
     'all meshes and all byte strings given to the readers',
     'Tests read one OBJ file that exists in the repository.',
     ['msh_io_obj.h', 'msh_io_obj.cpp', 'msh_io_ply.h', 'msh_io_ply.cpp', 'msh_io_misc.h', 'msh_io_misc.cpp', 'file.h', 'file.cpp', 'str.h', 'str.cpp'],
     [('line parsers', 'msh_io_obj.cpp, msh_io_ply.cpp, msh_io_misc.cpp'), ('face token splitting', 'msh_io_obj.cpp:ParseVertexObj, str.cpp')],
     ['arrays returned by readers', 'files produced by writers'])

prop('C24', 'Image and array files load faithfully or are refused',
     'A PPM image (ASCII or binary, with comments) and a NumPy array (float or double, one or two dimensions, C order, version 1) load with the dimensions, type and values of the file, whatever their size and content; files of other kinds and truncated, inconsistent or malformed ones are refused without memory errors. Bilinear sampling returns exact values at pixel centres and stays within the neighbouring values, and the gray-scale gradient of an image is the difference of the neighbouring gray values.',
     ['inputs', 'fault_sequences'],
     'all image sizes and contents, array shapes and dtypes, and all byte strings',
     'Tests load one file of each kind.',
     ['img_ioppm.h', 'img_ioppm.cpp', 'img_interpolation.h', 'img_interpolation.cpp', 'cvimggraygrad.h', 'cvimggraygrad.cpp', 'filenpy_str.h', 'filenpy_str.cpp'],
     [('header parsing', 'img_ioppm.cpp, filenpy_str.cpp'), ('bilinear sampling', 'img_interpolation.h')],
     ['returned buffers'])

prop('C25', 'Text utilities split, trim and scan without loss',
     'Splitting, trimming, replacing, quoting, bracket matching and number formatting on any text give the pieces their rule defines, in order and without reading outside the text; XML-like tags, attributes and SVG path data are decomposed into exactly the described elements and coordinates.',
     ['inputs'],
     'all strings, including empty ones, repeated separators, unbalanced brackets and missing terminators',
     'Five fixed strings are tested.',
     ['str.h', 'str.cpp', 'cad2_io_svg.h', 'cad2_io_svg.cpp', 'file.h', 'file.cpp'],
     [('scanners', 'str.cpp'), ('SVG path grammar', 'cad2_io_svg.cpp')],
     ['returned tokens'])

prop('C26', 'Editing a 2D CAD shape keeps its boundary structure valid',
     'After any sequence of adding polygons and faces, points on edges and in faces, dragging vertices, edges and handles or changing edge types, every face is bounded by closed loops of connected edges, every edge is used with consistent orientation, areas, extents and geometry agree with the described boundary, and meshing the shape yields a mesh that covers exactly the shape and whose vertex/edge/face associations match it; exported DXF lines are the edges, and deformation weights are one on the moved part and zero on the rest of the boundary.',
     ['histories', 'inputs'],
     'all editing histories and curve types',
     'Tests load SVG drawings and check a few counts.',
     ['cad2.h', 'cad2.cpp', 'cadtopo.h', 'cad2_mesher.h', 'cad2_mesher.cpp', 'cad2_io_svg.h', 'cad2_io_svg.cpp', 'cad2_io_dxf.h', 'cad2_io_dxf.cpp', 'cad2_mesh_deformation.h', 'cagedef.h'],
     [('loop/edge/vertex lists', 'cadtopo.h'), ('edge geometry', 'cad2.cpp'), ('mesher maps', 'cad2_mesher.cpp')],
     ['topology lists, areas, mesh'])

prop('C27', 'Voxel, grid and implicit-surface models describe the same solid',
     'Voxel and cube grids keep every stored value at its cell through any history of additions and removals, export exactly the boundary faces, hexahedra and tetrahedra of the filled cells, and dilation, erosion, geodesic distance, picking and the cells met by a segment are those of the filled cells. Iso-surface stuffing of a signed distance gives, also with locally refined lattices, a positively oriented conforming tetrahedral mesh approximating the solid, and an adaptive distance field returns distances, normals and an outward iso-surface within its cell error.',
     ['inputs', 'histories'],
     'all cell sets in any insertion order and all smooth signed-distance inputs',
     'Tests set a few voxels and check bounding boxes.',
     ['gridvoxel.h', 'gridvoxel.cpp', 'gridcube.h', 'gridcube.cpp', 'isrf_iss.h', 'isrf_iss.cpp', 'isrf_adf.h', 'isrf_adf.cpp', 'isrf_sdf.h'],
     [('growing grids', 'gridcube.h, gridvoxel.h'), ('stuffing tables', 'isrf_iss.cpp'), ('octree refinement', 'isrf_adf.cpp')],
     ['cells, faces, tetrahedra, distances'])

prop('C28', 'Slicing a triangle mesh yields complete, closed section curves',
     'Slicing a triangle mesh at increasing heights yields, per height, closed polylines at exactly that height lying on the mesh: consecutive segments join and belong to neighbouring triangles, every triangle crossed by the height (a vertex at the height counts as above) is covered once unless its section is cut open by the mesh boundary, and together they enclose the area of the section. The graph between the sections connects consecutive sections exactly when they bound a common part of a closed surface, also where coarse triangles are crossed by several heights (two sections of one height only through a part bounded by that height alone), is symmetric, and never reads outside a mesh with boundary. The contour of a nodal function has one segment in each crossed triangle, at the threshold, with the higher values always on the same side.',
     ['inputs'],
     'all closed and open meshes, functions and heights, including heights through vertices',
     'One test slices one mesh and counts polylines.',
     ['slice.h', 'slice.cpp'],
     [('edge walking and chaining', 'slice.cpp')],
     ['slice loops and graph'])

prop('C29', 'Skeletons, skinning and motion files transform points consistently',
     'World transforms of bones are the product of the local translation-rotation-scale transforms along the chain; skinning with inverse binding matrices leaves the rest pose unchanged, moves a point with the weighted mean of its bones, and gives the same result with dense, sparse (also into reused buffers) and four-weight storage. Making the current pose the rest pose leaves skin and joints where they are. A motion file (any channel order, tabs, CRLF, blank lines) yields one bone per joint and end site in file order with parents before children and one root; its rest pose sums the offsets, and every frame applies the channels in file order along the chain; saving and reading back reproduces it. The derivatives used for posing match finite differences and posing steps bring bones to reachable targets.',
     ['inputs', 'histories'],
     'all hierarchies, channel orders, frames, weights and poses',
     'No test loads a motion file or skins a mesh in this build.',
     ['rig_bvh.h', 'rig_bvh.cpp', 'rig_geo3.h', 'rig_geo3.cpp', 'rig_msh.h', 'rigopt.h', 'msh_arrow.h'],
     [('hierarchy parser', 'rig_bvh.cpp'), ('chain update and skinning', 'rig_geo3.cpp')],
     ['bone transforms and skinned points'])

prop('C30', 'Sampling, colour and special functions stay in range and match theory',
     'Every random sample lies in its domain and the samples have the stated distribution (48-bit generator, unit ball and sphere, hemisphere uniform and cosine-weighted, triangle meshes and parts of them by area); a Lloyd step moves every point to the weighted centre of its cell and keeps points without a weighted cell in place; spherical harmonics, Legendre and Hankel functions agree with their recurrences and definitions; noise is bounded, continuous and repeats with its period; colour conversions and maps stay in range, agree with their tables at the entries, and interpolate in between also for empty ranges.',
     ['inputs'],
     'all seeds and parameters',
     'Tests check only two orders of the spherical harmonics.',
     ['sampling.h', 'sampler_trimesh.h', 'sampler_lloyd2.h', 'specialfuncs.h', 'specialfuncs.cpp', 'noise.h', 'color.h', 'color.cpp', 'colormap.h'],
     [('inverse-cdf and rejection sampling', 'sampling.h'), ('recurrences', 'specialfuncs.cpp')],
     ['samples and values'])

prop('C31', 'Shortest-path and clustering on meshes are exact on their graph',
     'Shortest-path searches over element or point adjacency visit every reachable item exactly once in order of non-decreasing distance, report each visit in that order, and give the distances of an independent shortest-path computation, also restricted to regions and from all boundary elements at once; farthest-point clusters are non-empty, connected and nearest to their centre; merging points in pairs gives a maximal matching of connected points with conserved area and moments and the quotient adjacency; exponential maps and flattened patterns equal the weighted transport along the visited graph, are isometric in planes and do not depend on old buffer contents; cross-field smoothing keeps unit tangents, ignores quarter turns and reduces disturbances in any order; the triangles around a point and minimum-distance sampling agree with a direct search.',
     ['inputs'],
     'all graphs, edge lengths and sets of sources',
     'No test runs these searches.',
     ['dijkstra.h', 'clusterpoints.h', 'clusterpoints.cpp', 'expmap_geo3dijk.h', '4rotsym.h', 'srch_bruteforce.h', 'srch_bruteforce.cpp'],
     [('priority queue relaxation', 'dijkstra.h')],
     ['distances, orders and labels'])

prop('C32', 'Dynamic tetrahedral meshes stay valid and Delaunay under insertion',
     'Inserting points one by one into a tetrahedral mesh keeps every active element positively oriented, the adjacency symmetric and equal to the shared faces, the covered volume unchanged, every point linked to an element that contains it and every circumsphere empty, also when elements disappear; the walks around edges and points and the relations between neighbours return exactly the elements there; circumcentres, in-sphere tests, volumes, normals, shape measures and the maps of pyramids and wedges agree with their definitions.',
     ['histories', 'inputs'],
     'all insertion orders of points in general position',
     'No test runs tetrahedral insertion.',
     ['dtet_v3.h', 'dtet_v3.cpp', 'geodelaunay3_v3.h', 'geodelaunay3_v3.cpp', 'geosolidelm_v3.h', 'geosolidelm_v3.cpp'],
     [('cavity re-triangulation', 'dtet_v3.cpp:AddPointTetDelaunay'), ('orientation and insphere predicates', 'geodelaunay3_v3.cpp')],
     ['points, tetrahedra, adjacency'])

prop('C33', 'Cameras and projections map points and rays consistently',
     'Projections map the view volume to the screen cube with nearer points in front and are invertible; a pixel ray passes through exactly the points that project to that pixel\'s centre and goes away from the viewer; any history of mouse motions keeps the view matrix rigid, keeps the anchor in the middle and turns the scene with the cursor (trackball: about the screen axes; turntables: upright); photogrammetry cameras put a point at its place in the photograph, and camera files read back; gizmo handles are picked when (and only when) under the cursor, and a drag moves along, or turns about, the picked handle\'s own axis in the cursor\'s direction.',
     ['inputs', 'histories'],
     'all camera parameters, viewports, photographs and motion or drag histories',
     'No test exercises the cameras.',
     ['cam_modelview.h', 'cam_projection.h', 'mat4.h', 'mat4.cpp', 'geo_line.h', 'cvcamera.h', 'metashape_camera.h', 'gizmo_geo3.h', 'gizmo_geo3.cpp'],
     [('matrix composition', 'cam_projection.h, cam_modelview.h, mat4.cpp')],
     ['matrices and rays'])

prop('C34', 'Boundary-element flow, wave fields and vortex particles',
     'The boundary-element systems and fields equal the surface integrals they stand for, to the accuracy of the chosen quadrature rule: every matrix entry and right-hand side of the constant, linear and vortex-sheet formulations, potentials and velocities away from the surface (the velocity being the gradient of the potential plus the stream), wave panel coefficients, and point, panel and vortex-particle fields with their gradients. A uniform layer on a closed surface gives the winding number; solved systems give the potential flow around a ball and agree with each other around other bodies. The dense solver returns a solution whose residual is the one reported. Spreading vortex particles on a grid and collecting them conserves circulation, with trilinear weights.',
     ['inputs'],
     'all closed meshes, streams, wave numbers, evaluation points off the surface, quadrature rules and particle sets',
     'No test includes the boundary-element code.',
     ['bem.h', 'bem.cpp'],
     [('kernels and quadrature', 'bem.cpp'), ('vortex particles on a grid', 'bem.cpp viscousityVortexParticleGrid')],
     ['matrix entries, fields and circulations'])

prop('C35', 'Fitted models satisfy the data and laws they are fitted to',
     'A fundamental matrix fitted to eight or more correspondences is singular with a unit last entry, also for inexact ones, and satisfies the epipolar constraint of every exact correspondence in general position. An implicit function fitted to a stroke takes plus and minus its offset value on the two sides and zero along the stroke, its gradient is its derivative, and it moves with the stroke; refitting or clearing replaces it. A thin-plate grid passes through its points and follows the plate between them. The energy, gradient and second derivatives of a rigid-body assembly agree with each other; after solving, bodies are still rigid and the joint, contact and external forces and moments on every body balance, contacts carrying the load along their normals.',
     ['inputs', 'histories'],
     'all camera pairs and correspondences, strokes, plate points, and assemblies of bodies with joints, contacts and loads',
     'Tests exercise none of these fits.',
     ['eigen/cvfundamentalmat.h', 'eigen/implicit_rbf_approximation.h', 'eigen/grid2.h', 'eigen/eigen_rigidbody.h', 'eigen/eigen_rigidbody.cpp'],
     [('least squares fit with rank reduction', 'eigen/cvfundamentalmat.h'), ('interpolation systems', 'eigen/implicit_rbf_approximation.h, eigen/grid2.h'), ('static equilibrium', 'eigen/eigen_rigidbody.cpp')],
     ['fitted coefficients, residuals and forces'])

prop('C36', 'Garments keep panel shapes, seams and laws of motion and stay off the body',
     'Placing a panel in space keeps its lengths, flat or rolled around a cylinder of the given (positive or negative) curvature, and puts its origin at its place. Meshing a pattern gives both sides of a seam the same number of divisions, pairs their points at matching positions running against each other exactly once, covers every panel without sharing points between panels, and puts each point where its panel is placed. Simulated cloth keeps fixed points, conserves momentum under stretching, bending and sewing, falls freely without deforming, has velocities equal to displacement by time step, and its seams close. Cloth points inside the body or closer than the clearance are moved outside to the clearance by the shortest way, other points are left alone, also after the body has been posed.',
     ['inputs', 'histories'],
     'all panel shapes, placements and seams, all cloth motions, body shapes and poses',
     'Tests exercise none of the garment functions.',
     ['garment.h', 'cad2_mesher.cpp', 'srch_trimesh3_class.h', 'pbd_geo3.cpp', 'pbd_stvk.h', 'pbd_bending_for_dtri.cpp'],
     [('placing, meshing and pairing of panels', 'garment.h, cad2_mesher.cpp'), ('position based time step', 'garment.h, pbd_geo3.cpp'), ('projection out of a posed body', 'garment.h, srch_trimesh3_class.h')],
     ['point positions, velocities, pairs and meshes of panels'])
