"""One entry per claimed property: what is built, how it is run, what the evidence file says."""
CHECKS = {}


def add(pid, **kw):
    kw.setdefault('level', 'exploration')
    CHECKS[pid] = kw


add('C01',
    units=[dict(name='asan', sources=['harness/c01_parallel.cpp'], variant='asan', shards=3),
           dict(name='tsan', sources=['harness/c01_parallel.cpp'], variant='tsan', shards=3)],
    rule='random loop length, index type, worker count, injected delays and exceptions; a case counts as distinct by '
         'the observed interleaving (sequence of worker/index events), and as non-trivial when more than one index ran',
    require={'loop_calls_observed': 10000, 'loops_with_overlapping_calls': 50, 'image_hits': 100},
    assumptions=['schedules are those the machine produced under injected delays', 'ThreadSanitizer sees std::async through pthread'])

def one(src, **kw):
    return [dict(name='asan', sources=['harness/' + src], variant='asan', **kw)]


add('C02', units=one('c02_dyntri.cpp'),
    rule='random planar (with holes), closed and surface meshes, random edit histories of insertions, flips, collapses, clean-ups and Delaunay restorations; '
         'a case is distinct by its mesh and the edits applied',
    require={'op_insert_elem': 5000, 'op_insert_edge': 4000, 'op_flip': 4000, 'op_collapse': 2000, 'op_flip_refused': 500, 'points_deleted': 5000,
             'local_delaunay_edges': 20000, 'edges_refined': 2000},
    assumptions=['edits are only requested where their documentation allows them (interior edges, convex quadrilaterals in planar histories)'])

add('C03', units=one('c03_polygon.cpp'),
    rule='random simple polygons (star-shaped, combs, spirals, staircases) with holes, point sets (random, co-circular, collinear, clustered) and resolutions; '
         'a case is distinct by its input coordinates',
    require={'circumcircle_tests': 10000, 'boundary_edges_matched': 5000, 'regions_with_holes': 100, 'invalid_inputs': 100, 'valid_inputs': 100, 'constrained_edges': 3000,
             'points_inside': 1000, 'interior_points': 1000},
    assumptions=['loops keep a clearance of 2% of the region size, points a distance of 1e-3: touching and nearly degenerate input is undecided'])

add('C04', units=one('c04_topology.cpp'),
    rule='random element soups (non-manifold, shared nodes), conforming blocks with holes, wrap-around and random numbering, and mixed meshes; outputs pre-filled with garbage; '
         'a case is distinct by its element list',
    require={'rows_compared': 100000, 'faces_shared': 20000, 'mix_faces_shared': 20000, 'boundary_faces': 10000, 'closed_boundaries': 100, 'unique_edges': 50000,
             'dihedral_pairs': 5000, 'unified_vertices': 5000, 'components': 1000},
    assumptions=['elements have distinct nodes', 'on non-manifold faces any of the elements sharing the face is accepted as neighbour'])

add('C05', units=one('c05_meshgen.cpp'),
    rule='random resolutions and sizes of every generator, random open and closed quad meshes, affine blocks of hexahedra/tetrahedra, noisy surfaces and point sets; outputs pre-filled with garbage; '
         'a case is distinct by its parameters and coordinates',
    require={'closed_meshes': 2000, 'open_meshes': 500, 'edges_subdivided': 50000, 'tets_subdivided': 5000, 'hexes_subdivided': 1000, 'interior_vertices_smoothed': 20000,
             'extruded_tets': 20000, 'surfaces_measured': 500, 'point_sets': 2000, 'groups_boxed': 1000, 'solid_angles': 2000},
    assumptions=['the library approximates pi to 10 digits: generator coordinates are compared to 2e-9 relative'])

add('C06', units=one('c06_bvh.cpp'),
    rule='random point/triangle sets (coincident, collinear, clustered, single), Morton codes with long runs, closed and folded meshes, geometry updates, queries from inside, outside and on the elements; '
         'a case is distinct by its coordinates',
    require={'topo.topdown': 1000, 'topo.morton': 1000, 'refit.mesh': 1000, 'refit.point': 2000, 'query.line': 5000, 'query.ray': 5000, 'query.range': 5000, 'query.nearest on mesh': 10000,
             'query.included': 3000, 'sdf.inside': 1000, 'sdf.outside': 1000, 'ray.hit': 5000, 'ray.miss': 500, 'contact.ee': 3000, 'contact.fv': 1000, 'tripair.hit': 1000, 'topology.single': 50,
             'morton.duplicate codes': 500},
    assumptions=['line, ray, range and distance queries exist for sphere volumes only (they do not compile for boxes)', 'nearest-point queries are judged on triangles that are no slivers',
                 'self-contact volumes carry a margin of at least the contact distance, as the caller in the library does'])

add('C07', units=one('c07_spatial.cpp'),
    rule='random, coincident, collinear, clustered and lattice point sets, triangle sets of very different sizes, moving objects in grids, queries on, near and far from the items; a case is distinct by its coordinates',
    require={'kd.large tree': 200, 'tri.large tree': 10, 'kd.on point': 2000, 'kd.far': 2000, 'kd.near': 4000, 'tri.query': 5000, 'tri.pruned': 3000, 'grid.query': 10000, 'grid.within h': 50000, 'grid.flat': 100, 'weights.stencils': 1000},
    assumptions=['k-d trees are three-dimensional', 'grid queries keep coordinates within the range of int cells'])

add('C08', units=one('c08_primitives.cpp'),
    rule='random pairs of primitives with inner, boundary, outer, nearly degenerate and exactly coplanar/parallel placements, float and double; a case is distinct by its coordinates',
    require={'tri_face': 1000, 'tri_edge': 2000, 'tri_vertex': 1000, 'tripair_hit': 1500, 'tripair_miss': 1500, 'tet': 2000, 'quad_face': 800, 'quad_edge': 800, 'ee_contact': 500, 'edge_inner': 1500, 'seg2_cross': 1000, 'seg2_apart': 2000, 'winding': 1000, 'circumcircle': 4000, 'ray_hits': 100},
    assumptions=['primitives have a size and extent above the absolute tolerances documented in the code (1e-10)', 'ties and grazing contacts within tolerance are not judged'])

add('C09', units=one('c09_convex.cpp'),
    rule='random, spherical, clustered, flat and (2D) integer point sets of several sizes; pairs placed apart, overlapping and a prescribed small distance from touching along their separating axis; a case is distinct by its coordinates',
    require={'hull2_lattice': 400, 'hull2_general': 2500, 'hull3_faces': 50000, 'hull3_inner_points': 15000, 'pen2': 2000, 'apart2': 2000, 'pen3': 150, 'apart3': 400, 'nearly_touching': 300, 'pen3_large': 40},
    assumptions=['sets in general position (2D hulls also for integer points), not touching within 1e-4 of their size'])

add('C10', units=one('c10_ccd.cpp'),
    rule='random and aimed linear motions of four points (meeting at a prescribed time and place, translating, passing far, turning with several coplanar times), impulses and whole steps of two sheets; a case is distinct by its start and end coordinates',
    require={'fv_contact': 700, 'fv_free': 700, 'ee_contact': 700, 'ee_free': 700, 'several_roots': 800, 'contact_at_later_root': 200, 'newton': 400, 'newton_apart': 20, 'impulse_ccd': 150, 'fv_pushed': 70, 'ee_pushed': 70, 'impulse_proximity': 50, 'zones': 800, 'sheet_contacts': 10},
    assumptions=['motions whose coplanarity polynomial grazes zero or whose contact lies on the boundary of the features within the root tolerance (3e-5 of the step) are not judged'])

add('C12', units=one('c12_roots.cpp'),
    rule='polynomials of degree 1-6 expanded (in long double) from prescribed real roots and complex pairs, with random and dyadic roots, random scales and vanishing leading coefficients; intervals around and between the roots; a case is distinct by its coefficients',
    require={'poly': 60000, 'roots_in': 100000, 'vanishing_leading': 15000, 'dyadic': 20000, 'distinct_4': 2000, 'distinct_6': 50, 'closed_sturm': 10000, 'multiple': 4000, 'linear': 2000, 'tiny_leading': 2000},
    assumptions=['real roots at least 4% of the interval apart from each other and from its ends, well conditioned (coefficient rounding moves a root by less than 1e-9)'])

add('C11', units=one('c11_curves.cpp'),
    rule='random, tiny, large, straight, folded, coincident, closed, planar, point-like and lattice control polygons in 2D/3D and float/double, ends and knots as parameters; a case is distinct by its control points',
    require={'quadratic': 2000, 'cubic': 2000, 'collinear': 300, 'coincident': 300, 'point': 300, 'near_end': 500, 'near_inner': 500, 'newton_checked': 50, 'winding': 800, 'winding_large': 20, 'plane_hit': 1000, 'bsp2': 1000, 'bsp3': 1000, 'bsp_degree_5': 200, 'deboor': 1000, 'catmull': 1000, 'surface': 1000, 'rules': 8},
    assumptions=['adaptive quadrature of curves that turn back is only judged to 1%', 'the general B-spline sampler is instantiated in 2D (the code supports nothing else)'])

add('C13', units=one('c13_algebra.cpp'),
    rule='every evaluated product, inverse, rotation, quaternion or projection agrees with a long-double reference within a rounding bound scaled by size and condition number',
    require={'vec': 10000, 'mat23': 5000, 'rot': 10000, 'mat4': 5000, 'min_rotation_opposite': 500, 'slerp': 3000, 'log': 3000, 'inverse4': 3000},
    assumptions=['rotation logarithms are judged up to 1e-3 of half a turn; unpivoted N-by-N elimination is judged where its leading pivots are not small'])

add('C14', units=one('c14_decomp.cpp'),
    rule='matrices built from chosen rotations and singular values (general, repeated, nearly repeated, rank 0-3, mirrored, diagonal, lattice, graded, constant) at scales 1e-14..1e8; distinct by the entries',
    require={'svd_rank1': 300, 'svd_repeated3': 300, 'two_reflection': 2000, 'mirror': 500, 'fd': 1000, 'orthogonal2': 2000, 'scale3': 1000},
    assumptions=['Eigen JacobiSVD is the reference', 'derivatives are compared where singular values are separated by 1e-2'])

add('C15', units=one('c15_sparse.cpp') + [dict(name='refuse', sources=['harness/c15_refuse.cpp'], variant='asan')],
    rule='random histories of initialise, clear, merge (every variant, row and column lists equal or not), diagonal additions, boundary conditions, scalings, copies and products on random patterns and block sizes 1-6 for float, double and complex; integer values, so the dense model must agree exactly; distinct by pattern, sizes and element lists',
    require={'init': 5000, 'merge_dynamic': 5000, 'merge_scalar': 1000, 'merge_block': 5000, 'merge_rows_differ_from_columns': 5000, 'copy': 2000, 'fixed': 5000, 'constrained': 3000, 'degenerate': 1000, 'product_block5': 300, 'jag': 3000, 'refused': 500},
    assumptions=['matrices are square with a diagonal, as every caller in the library builds them', 'a master degree of freedom is not itself a slave'])

add('C16', units=one('c16_solvers.cpp') + [dict(name='eigen', sources=['harness/c16_eigen.cpp'], variant='asan', flags=['-I/usr/include/eigen3'])],
    rule='random symmetric positive definite, Hermitian, complex symmetric and diagonally dominant nonsymmetric block systems (chains, stars, grids, random and full patterns, block sizes 1-5, scales 1e-2..1e2), right-hand sides, tolerances, iteration limits and fill levels, with garbage in every output and scratch vector; oracle: dense LU and the true residual; the product of the incomplete factors against the matrix on its pattern; distinct by system and right-hand side',
    require={'solve_CG': 800, 'solve_PCG': 800, 'solve_BiCGStab': 800, 'solve_PBiCGStab': 800, 'solve_CG_Complex': 100, 'solve_PCG_Complex': 100, 'solve_PCOCG': 100, 'solve_BiCGSTAB_Complex': 100, 'solve_PBiCGStab_Complex': 100, 'limited': 500, 'exact_block5': 100, 'complex_exact': 80, 'no_off_diagonal': 100, 'multiple_of_identity': 80, 'copied': 300, 'degenerate': 500, 'front_BlockSparse': 300, 'front_BlockSparseILU_Pcg': 300, 'penta1': 200, 'penta4': 200, 'tri1': 200, 'tri4': 200, 'penta_front': 300, 'zero_rhs': 60, 'eigen_sparse PCG': 500, 'eigen_sparse row-major PCG': 400, 'eigen_merge_lists': 200},
    assumptions=['matrices and right-hand sides have entries of magnitude 1e-4..1e4 (the solvers and factorisations use absolute zero thresholds)', 'BiCGStab runs get generic right-hand sides and positive definite matrices (the algorithm itself breaks down when the residual becomes orthogonal to the shadow residual)', 'the complex factorisation exists for 1x1 blocks only'])

add('C17', units=one('c17_energy.cpp'),
    rule='random non-degenerate rest and deformed configurations of every element (three length scales, stretched, compressed, folded, inverted, rigidly moved), random material parameters; oracle: two-step fourth-order differences of the returned energy and gradient (used only where the two steps agree), closed-form energies of linear/quadratic fields, rigid motions; distinct by configuration',
    require={'gradient_entries': 80000, 'hessian_entries': 150000, 'sensitivity_entries': 30000, 'rigid_motion_checks': 5000, 'rest_states': 1500, 'cst_tension': 150, 'inverted_elements': 30, 'linear_elements': 900, 'mitc3': 150, 'dkt': 150, 'beam2': 150, 'arap_cells': 60, 'contact_penetrating': 80, 'contact_separated': 50},
    assumptions=['elements are not degenerate; singular values of the deformation gradient are at least 0.05 apart for the SVD-based element; rods are not folded back', 'the exact rod Hessian is the derivative of the gradient in transported frames (its antisymmetric part is the holonomy of the frame), so only its symmetric part is compared with second differences of the energy'])

add('C18', units=one('c18_fem.cpp'),
    rule='assembled matrix and residual equal an independent dense Galerkin assembly; linear/rigid/constant-strain/uniform flows leave no interior residual; totals equal measure times density; tables exact to their degree',
    require={'poisson': 60, 'diffusion': 60, 'helmholtz': 50, 'patch_tests': 30, 'rigid_bodies': 15, 'stiffness warping tet': 20, 'hexa': 40, 'stokes2s': 15, 'stokes2d': 15, 'stokes3s': 15, 'stokes3d': 15, 'navier2': 25, 'navier3': 25, 'exact_flows': 10, 'plates': 50, 'gauss_tables': 50, 'shape_functions': 20, 'quads': 20},
    assumptions=['elements are positively oriented and well shaped (jittered grids)', 'the strength of the flow stabilisation is the library\'s choice and is read back from its pressure block', 'pi is 3.1416 in the Helmholtz element: compared to 1e-5'])

add('C19', units=one('c19_dynamics.cpp'),
    rule='random histories of predictor/projection/corrector steps with fixed points, random constraints and masses, strained and bent triangle meshes, shape-matching clusters in 2D/3D (planar, overlapping), contact impulses and friction between free and fixed bodies, rigid-body and resting histories, staggered and cell-centred fluid grids, helical hairs with and without contacts, cloth steps; oracle: linear and angular momentum, exact least-motion corrections, rest invariance, immobility of fixed points, energy decrease, divergence identities; distinct by configuration',
    require={'fixed_dof': 2000, 'const3': 1000, 'invariant_constraints': 500, 'strain_reduced': 1500, 'hinges': 250, 'seam_open': 200, 'seam_closed': 200, 'rigid2': 300, 'rigid3': 300, 'rigid3_planar': 80, 'clusters': 1500, 'stopped': 200, 'contact_free': 600, 'contact_fixed': 400, 'sliding': 500, 'sticking': 500, 'free_flight': 1000, 'contact_steps': 150, 'histories_with_contact': 20, 'resting': 60, 'projections': 150, 'interpolations': 1500, 'stream_cells': 2000, 'rest_hair': 200, 'hair_steps': 200, 'hair_contacts': 100, 'cloth_free': 40},
    assumptions=['strain is moderate (Green strain below 0.15) where a single correction must reduce it', 'angular momentum of a contact step with friction is judged up to the gap the contact leaves (the exact balance is judged on the contact and friction impulses themselves)'])

add('C20', units=one('c20_deform.cpp'),
    rule='random planar and curved triangle meshes with random fixed, translated, rotated or disturbed handles, with and without preconditioner, for the four Laplacian and four as-rigid-as-possible solvers; cages (also inside out) with affine motion, polygons with points inside, on edges and at vertices; polyline chains dragged by a vertex; oracle: rigid/affine reproduction, own as-rigid-as-possible energy and its gradient, best rotations by brute-force comparison, matrices against their quadratic forms; distinct by mesh and motion',
    require={'matvec': 200, 'arap_histories': 100, 'global_steps': 200, 'lap_translate': 50, 'lap_rest': 50, 'lap_free': 50, 'rotations': 2000, 'cage_points': 300, 'poly_inside': 150, 'poly_edge': 70, 'rod_drag': 80, 'beam_drag': 100, 'follow': 20, 'edge_linear': 80, 'translations': 50},
    assumptions=['the energy decreases are required of the alternating solver (Deformer_Arap2); the Newton-like ones are judged by their fixed points, handles and matrices', 'penalised handles may deviate by the penalty error', 'elastic polylines have at least four vertices (precondition of the pentadiagonal solver)'])

add('C21', units=one('c21_lp.cpp'),
    rule='random integer programs of up to 4 variables and 7 constraints of all kinds and right hand side signs, degenerate and redundant ones, classical cycling examples, constraints added between runs, and programs of up to 24 variables with a constructed primal/dual pair; oracle: exact enumeration of vertices and extreme rays in integer arithmetic; distinct by coefficients',
    require={'optimal': 5000, 'infeasible': 2000, 'unbounded': 2000, 'degenerate': 1500, 'history_steps': 2000, 'cycling_examples': 150, 'large': 300, 'large_degenerate': 100, 'rhs_nonpositive': 300, 'rhs_zero': 300},
    assumptions=['the iteration limit is 20000; reaching it counts as not terminating', 'variables are non-negative, as the solver defines'])

add('C22', units=one('c22_mathexp.cpp'),
    rule='random expressions printed from the grammar with random spacing, long chains of one operator, deep nesting, histories of variable changes and re-parsing (also after range errors), mutated expressions and arbitrary bytes; oracle: an independent recursive-descent parser with error-tracked long double evaluation; distinct by text',
    require={'values': 50000, 'accepted': 20000, 'reevaluated': 30000, 'chains': 1500, 'ill_formed': 10000, 'well_formed': 1500, 'nested': 150, 'history_accepted': 1500, 'history_rejected': 1500, 'errno_set': 100},
    assumptions=['values are compared where the expression is defined and its rounding error is small', 'text with two consecutive signs before an operand may be accepted or rejected', 'nesting is at most some hundred levels'])

add('C23', units=one('c23_meshio.cpp'),
    rule='random meshes written by every writer and read back by every matching reader (OBJ uniform, mixed, flagged, grouped and attributed; PLY; VTK cells, point data, sub-meshes and mixed cells; triangle lists; STL; TetGen; Nastran), the same files decorated with long and short comments, blank lines, CRLF and a missing last newline, own files in every corner syntax, and files truncated, spliced, corrupted or random; oracle: the arrays given to the writer; sanitizers and a CPU limit per case on hostile files; distinct by content',
    require={'obj_tri': 300, 'obj_quad': 300, 'decorated': 300, 'obj_mixed': 300, 'obj_flag': 100, 'obj_multi': 80, 'obj_attr': 100, 'obj_syntax': 300, 'long_polygon': 100, 'materials': 200, 'ply': 300, 'ply_comment': 100, 'vtk': 300, 'vtk_map': 50, 'vtk_mixed': 300, 'stl_facets': 300, 'tetgen': 200, 'nastran': 250, 'survived': 8000, 'reported_by_exception': 1000},
    assumptions=['coordinates are compared to the six digits the writers print', 'a C++ exception is an accepted report of a corrupted file', 'counts in corrupted files have at most five digits (memory exhaustion is out of scope)'])

add('C24', units=one('c24_imgfile.cpp'),
    rule='random PPM files (binary and ASCII, comments, every header layout) and NumPy files (one and two dimensions, float and double, every header spelling, long headers) written by the harness and read by the library, compared value by value; the same files truncated, spliced, corrupted or with inconsistent shapes, under sanitizers and a CPU limit; bilinear samples against a direct formula and gray gradients against differences; distinct by content',
    require={'ppm6_read': 100, 'ppm3_read': 100, 'ppm_comment': 80, 'hostile_invalid': 200, 'hostile_still_valid': 20, 'npy2_read': 200, 'npy1_read': 80, 'npy_refusable': 80, 'npy_empty': 5, 'npy_long_header': 10, 'npy_hostile_shape': 40, 'dict_read': 100, 'samples': 2000, 'pixel_centres': 500, 'gradients': 100},
    assumptions=['shapes in corrupted files have at most a few digits (memory exhaustion is out of scope)', 'ASCII PPM values above 65535 may be accepted or refused'])

add('C25', units=one('c25_text.cpp'),
    rule='random and adversarial texts (repeated separators, quotes, nested and unbalanced brackets, every byte, missing terminators) through every splitting, trimming, replacing, scanning, attribute, command-line and path function against independent reference implementations; random SVG path data in every command and number syntax against an independent interpreter of the SVG grammar, and hostile SVG files under sanitizers; distinct by text',
    require={'splits': 1000, 'nested_balanced': 300, 'nothing_left': 20, 'char_classes': 200, 'xml_docs': 200, 'xml_no_terminator': 20, 'unfinished_tag': 20, 'attributes': 300, 'attr_value_with_equal': 20, 'json': 100, 'options': 100, 'files': 100, 'svg_edges': 2000, 'svg_exponent': 50, 'svg_newline_separator': 50, 'svg_repeated_args': 200, 'svg_smooth': 50, 'svg_polygons': 100, 'svg_hostile_files': 300},
    assumptions=['malformed JSON and CSV text is outside the domain of ReadDictionary_Json and ReadVector_CSV', 'SVG elliptic arcs are not supported by the library and only the first closed subpath is read'])

add('C26', units=one('c26_cad2.cpp'),
    rule='random histories of adding polygons and faces, inserting vertices on edges and in faces, dragging vertices, edges and handles and changing curve types, checked after every operation against a shadow model of the boundary loops; meshing of the resulting shapes with area, coverage, Delaunay-free validity and association checks; DXF export read back; deformation weights; distinct by history',
    require={'states_checked': 2000, 'edges_checked': 5000, 'op_add_polygon': 200, 'op_add_face': 50, 'op_add_vertex_edge': 300, 'op_add_vertex_face': 100, 'op_drag_vertex': 200, 'op_drag_edge': 200, 'op_drag_handle': 50, 'type_0': 100, 'type_1': 100, 'type_2': 100, 'edge_geometry': 2000, 'dxf_lines': 500, 'meshes': 60, 'mesh_interior_points': 500, 'bulging_meshes': 20, 'weights': 50},
    assumptions=['shapes stay simple (no self-intersecting loops), as the mesher requires'])

add('C27', units=one('c27_voxel.cpp'),
    rule='random histories on cube grids against a map of cells, with boxes, neighbours and picking rays against slab tests; random voxel sets with faces, hexahedra and tetrahedra against a brute-force list; dilation, erosion, geodesic distances and segment walks (also along axes and through corners) against direct definitions; stuffing lattices and meshes of balls, tori, boxes, capsules and hollow balls, uniformly and locally refined: conformity, orientation, volume, surface distance, flags; adaptive distance fields: octree, values, normals, iso-surface orientation, area and volume; distinct by content',
    require={'cube_added': 2000, 'cube_removed': 100, 'boxes': 3000, 'pick_hit': 1500, 'pick_miss': 1500, 'pick_axis_aligned': 500, 'boundary_faces': 5000, 'grids_set': 60, 'set_outside': 300, 'voxels': 2000, 'dilations': 150, 'erosions': 150, 'reached': 4000, 'unreached': 2000, 'seed_twice': 10, 'voxels_crossed': 600, 'segment_along_axis': 8, 'segment_in_axis_plane': 8, 'segment_lattice_points': 8, 'lattice_tets': 20000, 'lattice_graded': 10, 'lattice_at_box': 4, 'stuffed_tets': 100000, 'stuffed_graded': 5, 'surface_points': 8000, 'inner_points': 8000, 'near_surface': 500, 'normals': 1500, 'outside_queries': 40, 'mc_triangles': 15000},
    assumptions=['voxel values are 0 or 1 and cells are numbered in the order each function documents by its own formula', 'locally refined cells keep away from the faces of the stuffing box (hanging nodes may occur there)', 'picking rays start outside the cubes'])

add('C28', units=one('c28_slice.cpp'),
    rule='sections recomputed triangle by triangle from the mesh; components of the surface pieces between the heights by an independent flood',
    require={'segments': 50000, 'loops': 1000, 'closed_components': 1000, 'open_components': 500, 'height_at_vertex': 100, 'mesh_sphere': 40, 'mesh_torus': 40,
             'mesh_several': 40, 'mesh_cavity': 40, 'mesh_prism': 30, 'bands_connected': 400, 'branchings': 15, 'reeb_fine': 60, 'reeb_coarse': 60, 'reeb_convex': 80,
             'links_inside_triangle': 5000, 'links_across_edge': 10000, 'contour_segments': 10000, 'contour_at_vertex': 150},
    assumptions=['triangle meshes with consistent orientation and manifold edges; heights strictly increasing',
                 'same-height connections are judged only where every triangle is crossed by at most one height (from the triangles alone the side of the height is not known otherwise)'])

add('C29', units=one('c29_rig.cpp'),
    rule='own matrix products along the chain, own weighted sums, own motion-file writer with forward kinematics, finite differences of the pose',
    require={'bone_transforms': 3000, 'skinned_points': 2000, 'sparse_buffers_reused': 80, 'sparse_skinned': 100, 'from_joint_rotations': 150, 'rebinds': 150, 'poses': 250,
             'blank_lines': 15, 'joint_with_position': 100, 'root_without_position': 15, 'rotation_before_position': 25, 'frame_out_of_range': 150, 'saved_and_read': 150,
             'derivatives': 1200, 'independent_targets_far': 30, 'bone_meshes': 150, 'second_root': 150},
    assumptions=['parents precede their children; scale 1 when the current pose is made the rest pose',
                 'position channels replace the offset of the joint (the convention of this reader); malformed motion files are outside the claim',
                 'the glTF loader needs a third-party header that is not installed here and is not exercised'])

add('C30', units=one('c30_sampling.cpp'),
    rule='random streams checked draw by draw against an own 48-bit generator; domains checked for every sample and distributions by moment and cell-count tests with thresholds far beyond chance; Lloyd steps against a brute-force assignment; spherical harmonics, Legendre and Hankel functions against own recurrences; noise against periodicity, bounds and a modulus of continuity; colours against the definition of the space and the tables; distinct by parameters',
    require={'generator_steps': 20000, 'hemisphere_samples': 6000, 'distributions': 150, 'samples': 1000000, 'whole_mesh_samples': 50000, 'selective_mesh_samples': 50000,
             'degenerate_triangle': 5, 'cells': 1000, 'cells_without_importance': 80, 'harmonics': 6000, 'legendre': 700, 'hankel': 700, 'noise_values': 2000,
             'lattice_points': 15, 'period_longer_than_table': 8, 'colours': 4000, 'table_entries': 1800, 'map_values': 2000, 'empty_range': 15},
    assumptions=['distributions are judged by statistics whose false-alarm probability is below 1e-9 per test for the seeds used',
                 'the gradient noise is required to be continuous, periodic and bounded, not continuously differentiable'])

add('C31', units=one('c31_geodesic.cpp'),
    rule='breadth-first and Bellman-Ford searches written for the check, on meshes of planes, cylinders, spheres and tori with shuffled numbering and on quad and hexahedron adjacency with holes; every callback order recorded; pairing judged as a maximal matching with conserved area and moments; farthest-point clusterings matched against all possible histories; exponential maps recomputed from the visiting order and exact in planes; cross fields recomputed by the definition; distinct by mesh',
    require={'visited': 40000, 'grid_elements': 3000, 'regions': 50, 'unreached': 1000, 'sources': 1000, 'no_boundary': 10, 'clusters': 200, 'cluster_histories': 30, 'point_sources': 100,
             'pairs': 2000, 'quotients': 100, 'equal_areas': 40, 'general_quotient_clusters': 1000, 'exp_points': 3000, 'exp_plane_points': 1500, 'exp_elements': 2500, 'exp_regions': 70,
             'exp_buffer_reused': 70, 'flat_points': 2000, 'cross_pairs': 100, 'cross_pass': 4, 'cross_constant': 10, 'cross_disturbed': 10, 'cross_plane_fields': 50,
             'sphere_triangles': 6000, 'accepted_samples': 1000, 'rejected_samples': 1500},
    assumptions=['the mesh is connected where the search says it reaches everything (DijkstraElem_MeshElemTopo, DijkstraPoint_MeshTri3D, MeshClustering)',
                 'MeshClustering draws its first element from the random device of the system; the check accepts every first element',
                 'merged points have normals that do not oppose each other'])

add('C32', units=one('c32_dyntet.cpp'),
    rule='histories of insertions of clouds, near-spheres, near-grids, skew lines, near-planes and clusters into a large tetrahedron; the whole structure re-derived after the insertions (long double volumes and circumspheres, face table, links, empty spheres against all points); walks around edges and points against a scan of all elements; predicates and pyramid/wedge functions against their definitions; distinct by history',
    require={'inserted': 1200, 'states': 600, 'sphere_tests': 1000000, 'inactive_elements': 800, 'fewer_elements_after': 10, 'inner_edges': 300, 'inner_points': 300, 'outer_points': 30,
             'rebuilt': 20, 'rebuilt_with_inactive': 8, 'in_sphere': 500, 'out_of_sphere': 500, 'smallest_sphere': 1000, 'solids': 150, 'affine_solids': 60, 'inverse_maps': 60},
    assumptions=['points in general position at a scale of about one (the library asserts absolute volumes above 1e-10): points nearly on a circumsphere or making nearly flat elements are skipped and counted',
                 'every point is inserted through an element that contains it strictly'])

add('C33', units=one('c33_camera.cpp'),
    rule='random view heights, opening angles, aspect ratios, viewports and pixels, mouse motion histories (including none, tiny and very many), camera files, photographs and gizmo drags; '
         'a case is distinct by its parameters and motions',
    require={'projected': 15000, 'perspective': 600, 'parallel': 600, 'motions': 30000, 'turned': 3000, 'returned': 100, 'still': 3000, 'y_up': 5000, 'z_up': 5000, 'followed': 20000,
             'ray_points': 15000, 'scene_points': 3000, 'single': 200, 'double': 200, 'distorted': 600, 'pinhole': 600, 'cameras_read': 400, 'missing': 70, 'photo_points': 1200,
             'snapped': 1000, 'dragged': 700, 'handle_miss': 150, 'ring_hit': 150, 'ring_miss': 40, 'axes': 300, 'axis_drags': 150, 'ring_drags': 500, 'rings': 300, 'quad_hit': 20},
    assumptions=['turntable views are judged away from the poles, where the upright direction is undefined', 'single precision matrices are compared to single precision tolerances',
                 'the gain of screen-space drags is not judged beyond lying between 0.3 and 1.05 of the cursor motion'])

add('C34', units=one('c34_bem.cpp'),
    rule='random panels seen from random points, random bodies (deformed icospheres, shuffled and rotated numbering) and streams, with every quadrature rule, against an own adaptive Gauss-Legendre integration of the kernels; solid angles by the arctangent formula; the analytic flow around a ball; random diagonally dominant systems; random particle sets, also on lattice points, on one plane or at one point; distinct by geometry',
    require={'panel_fields': 2500, 'rule_0': 200, 'rule_1': 200, 'rule_2': 200, 'rule_3': 200, 'rule_4': 200, 'rule_5': 200, 'pair_coefficients': 600, 'wave_fields': 500, 'entries_far': 10000,
             'entries_near': 6000, 'rows_linear': 200, 'inside': 100, 'outside': 100, 'flow_points': 96, 'balls': 1, 'bodies': 1, 'systems_solved': 80, 'zero_rhs': 5, 'particle_fields': 800, 'sums': 600,
             'steps': 600, 'grid_points': 50000, 'spread': 3000, 'grid_reused': 60, 'no_particles': 1},
    assumptions=['fields are judged at points away from the panels, to the degree of the quadrature rule; entries between neighbouring panels to their magnitude only',
                 'the right hand side of the constant formulation may leave out the own panel (as it does)', 'the sign convention of the wave panels is the one of the code'])

add('C35', units=[dict(name='fit', sources=['harness/c35_fit.cpp'], variant='asan', flags=['-I/usr/include/eigen3'])],
    rule='random camera pairs and point clouds; random strokes (refitted, translated and turned); random plate points; random assemblies of bodies, joints, contacts and loads, with and without friction stiffness, also copied; distinct by the random data',
    require={'bodies_balanced': 200, 'contacts': 300, 'copied_bodies': 20, 'correspondences': 10000, 'directions': 1000, 'external_forces': 100, 'gradients_at_samples': 1000, 'inexact_views': 300, 'joints': 140, 'plate_cells': 6000, 'plate_points': 600,
             'refitted': 60, 'stroke_gradients': 1000, 'stroke_samples': 3500, 'with_friction': 40, 'without_friction': 40},
    assumptions=['correspondences, strokes and plate points in general position', 'assemblies whose stiffness makes the equilibrium unique'])

add('C36', units=one('c36_garment.cpp'),
    rule='random panels and placements (flat, rolled both ways); random patterns of several polygons with straight and curved edges and random seams; random simulations with fixed points, gravity, seams and bodies; random posed bodies and clouds of points around them; distinct by the random data',
    require={'clouds': 35, 'covered_panels': 230, 'drops': 38, 'fixed_points': 350, 'flat': 400, 'free_falls': 25, 'left_alone': 50000, 'momentum_steps': 300, 'out_of_reach': 900, 'pattern_points': 15000, 'placed_points': 9000, 'poses': 800,
             'pushed_from_inside': 1500, 'pushed_out': 13000, 'relaxed': 20, 'rolled_inwards': 500, 'rolled_outwards': 500, 'seam_pairs': 1000, 'seams': 170, 'steps': 480},
    assumptions=['panels smaller than the cylinder they are rolled around; body surfaces closed; points in special position with equally near faces are not judged for the way out'])

NOT_APPLICABLE = {}
