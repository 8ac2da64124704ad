"""Handwritten part of DESIGN.md: per property (oracle, why it reaches what tests cannot, undecided)."""
T = {}
def d(pid, oracle, reach, undecided):
    T[pid] = (oracle, reach, undecided)

d('C01', 'An event log written by the loop body (index, worker, call number) is checked offline: the multiset of indices is exactly the range, '
  'no call begins after the loop returned, no index twice when calls throw, the exception caught by the caller is one of those thrown. The same '
  'source is built a second time with ThreadSanitizer, which judges the loop\'s own synchronisation. The parallel image ray cast is compared bit for bit with the serial one.',
  'random delays, oversubscription and exceptions at chosen indices produce thousands of distinct interleavings (signature = the observed event order).',
  'schedules that the operating system never produced; progress under a dead worker.')
d('C02', 'After every edit the whole mesh is compared with the definition (adjacency by a map of directed edges, point-to-element links, signed areas, total area, Euler characteristic); '
  'a refused edit must leave a bitwise copy. Local Delaunay restoration is judged by the in-circle test of each interior edge that may flip.',
  'histories of up to hundreds of edits interleaved on planar, closed, curved and two-sheet meshes reach states no single-edit test has.',
  'edits requested against their preconditions.')
d('C03', 'Exact-area bookkeeping, directed-edge matching of boundary to loop edges, all-pairs empty-circumcircle tests, point inclusion by winding number; validity of loops is decided by an all-pairs segment test.',
  'combs, spirals, staircases, holes, co-circular and collinear points, clustered sizes.',
  'touching loops and near-degenerate input (kept outside a clearance). Removed false alarm: a bound on the largest element became one on the mean area.')
d('C04', 'Each table is rebuilt from its definition with sets and compared entry by entry; outputs are pre-filled with garbage before the call.',
  'non-manifold soups, mixed elements, wrap-around meshes, single elements, empty lists.', 'elements with repeated nodes.')
d('C05', 'Watertightness by directed-edge counting, divergence-theorem volume, vertices on the stated analytic surface, parents and children of every subdivision step recomputed; measures against direct sums.',
  'all resolutions from the smallest legal one, both scalar types, repeated subdivision.', 'pi is only accurate to ten digits in the code.')
d('C06', 'Linear scan over all elements with an independent distance/intersection routine; tree invariants by walking the tree; after moving the geometry and refitting everything is asked again.',
  'coincident centroids, long runs of equal Morton codes, single elements, folded meshes, queries on and far from the geometry.',
  'line/ray/range queries through boxes (no such code compiles).')
d('C07', 'Linear scan; inventory of the index (each item exactly once); gradients by finite difference.',
  'up to several ten thousand points (deep trees), duplicates, points on cell borders, queries far outside, moved items. Large trees were added because a mutant in deep pruning survived small ones.',
  'Removed false alarm: cubic weights may be negative by rounding.')
d('C08', 'Optimality of a nearest point by the variational inequality of the convex projection (and dense sampling where the primitive is curved); intersections by independent long-double predicates with a margin; invariants by re-running on rotated and relabelled copies.',
  'parallel, collinear, obtuse, needle and degenerate-looking primitives, single and double precision; triangle pairs sharing a corner or an edge.',
  'ties and grazing contacts within tolerance. Removed false alarm: ray depth is measured along the direction as given, which must be of unit length.')
d('C09', 'Hull: all points behind every facet, closed directed edges, vertices are input points. Overlap: signed separation over every candidate axis (facet normals and edge pairs of brute-force hulls); penetration is applied and the sets re-tested.',
  'integer lattices, many collinear points, thin sets, hundreds of vertices.', 'touching sets (1e-4 margin), hulls of degenerate 3D sets.')
d('C10', 'An interval oracle over the time step (independent long-double root isolation of the coplanarity cubic) plus recomputed positions at the reported time; pairs kept apart by a separating plane must report none; whole cloth sheets are stepped through impulses and impact zones and checked for penetration by brute force.',
  'fast, tiny, rotating and almost parallel motions; contact near time 0 and 1.', 'grazing roots. Removed false alarm: the Newton variant is only required to converge from a start in its basin.')
d('C11', 'Direct Bernstein/Cox-de Boor sums, finite differences, fine polylines with Richardson extrapolation, dense sampling for nearest points and boxes.',
  'every degree, repeated knots, turning points, loops; float and double.', 'Removed false alarms: adaptive quadrature may accidentally agree on coarse levels (judged to 1%).')
d('C12', 'Polynomials are built from chosen roots, so the true root set is known; the interval count is compared with it.',
  'vanishing leading coefficients, clustered and multiple roots, roots outside the interval, degrees 1 to 6.',
  'ill-conditioned roots. Removed false alarm: distinct-root counting with double roots is only required of exactly representable input.')
d('C13', 'Each identity is evaluated through two or more interfaces and against a plain long-double loop; aliasing calls are compared with non-aliasing ones.',
  'all classes and raw-array functions, both scalar types, special rotations (0, half turn, tiny).', 'rotation logarithm within 1e-3 of half a turn.')
d('C14', 'Reconstruction residual, orthogonality, determinant sign, ordering; Eigen as a second opinion; finite differences of the factors.',
  'repeated, zero, negative, hugely scaled values, reflections.', 'derivatives at (nearly) repeated singular values.')
d('C15', 'A dense shadow matrix receives every operation of a random history and is compared entry by entry after each; accesses outside the pattern must be refused.',
  'block sizes 1 to 4, real and complex, empty rows, re-initialisation, multi-point constraints.', 'rectangular matrices, chained constraints.')
d('C16', 'Dense elimination as reference; the reported residual history is recomputed from the returned solution; full fill-in factorisation must solve exactly; outputs are pre-filled.',
  'SPD, general, complex symmetric, block sizes, indices of fill levels.', 'BiCGStab breakdown for sparse right-hand sides or indefinite matrices is inherent to the algorithm.')
d('C17', 'Central differences with step control of energy and gradient, invariance under random rigid motions, balance of forces and moments, eigenvalues of Hessians; analytic plate energies (constant curvature, uniform shear) for any triangle shape and numbering.',
  'arbitrary shapes, large deformations, all element types, all constants.',
  'known finding: the MIPS energy leaves out the deformed area of its angle term, so it is not stationary at rest (a repair makes an existing test exceed its tolerance). Removed false alarm: the exact rod Hessian is a covariant derivative, so it is compared in transported frames.')
d('C18', 'Patch tests (linear and rigid fields), total loads, symmetry, null space by dense algebra, Newton consistency by finite differences, quadrature tables against exact monomial integrals.',
  'random meshes and materials for every assembler.', 'the amount of flow stabilisation is a choice of the library.')
d('C19', 'Momentum, angular momentum and energy are measured before and after each step; best-fit rotations against SVD; grid divergence and maximum principle measured; residual of the implicit cloth step recomputed from positions.',
  'random bodies, contacts, histories, timesteps.', 'Removed false alarm: a correction need only halve strain below 0.08 Green strain (not grow below 0.15).')
d('C20', 'Fixed points, prescribed handles, translations/rotations reproduced; operator columns probed to build the matrix and check symmetry and positivity for arbitrary alpha, beta.',
  'random meshes, handles and cages.', 'Energy decrease only required of the alternating solver; elastic polylines need four vertices.')
d('C21', 'Exact integer enumeration of the vertices and extreme rays of the feasible polyhedron gives the true optimum, infeasibility or unboundedness for small programs; a constructed primal/dual pair for larger ones; feasibility and objective are recomputed.',
  'degenerate, redundant, cycling (Beale type) and contradictory programs; repeated solves with one object.', 'floating-point near-infeasibility.')
d('C22', 'Independent recursive evaluator working on the generated syntax tree; garbage and mutated text under sanitizers.',
  'tens of thousands of trees with every operator pair at every nesting; variable updates between evaluations.',
  'two signs in a row, numbers beyond double range: either answer accepted.')
d('C23', 'Round trip compare; independent writers of the formats with every corner syntax; a hostile stage mutates and truncates bytes under AddressSanitizer with outputs pre-filled and checks array sizes fit.',
  'long comments, CRLF, missing newline, 0-element files, all corner syntaxes.', 'syntax the readers do not claim (polygons above 4 corners, relative indices, extra PLY properties).')
d('C24', 'Files are written by the harness byte by byte and compared value by value; bilinear sampling against a long-double formula; hostile stage as in C23.',
  'all sizes, header spacing, comments, dtypes, truncated payloads.', 'ASCII maxval above 65535, zero-padded numbers and "255-0": either answer accepted.')
d('C25', 'A reference implementation of each rule on std::string; text buffers end exactly at their allocation so that any over-read is an ASan report.',
  'empty text, only delimiters, nested brackets and quotes, NUL bytes behind the text, every SVG command in absolute/relative form.', 'malformed JSON/CSV; SVG arcs.')
d('C26', 'After each edit: loops closed, edge use orientation, areas from an independent fine polyline, mesh coverage by area and winding, associations recomputed, DXF lines parsed back.',
  'long random edit histories with drags and edge-type changes.', 'self-intersecting shapes.')
d('C27', 'A shadow dictionary of cells; exported boundary/hex/tet compared with direct enumeration; Dijkstra for geodesics; marching in small steps for segments; tet conformity by face counting and distance of the surface to the solid.',
  'random histories, non-connected and cavity shapes, locally refined lattices.',
  'known finding: CGrid3::Set and the mesh exporters number cells x-major, dilation/erosion/geodesic/segment x-fastest, so dilating a cell that was set grows the wrong one in boxes of unequal sides. Lattices refined up to box faces; creased solids get 2.5 cells.')
d('C28', 'Per-triangle crossing segments computed independently; loops matched, areas by Green\'s formula; the section graph by flood fill of (triangle, band) pieces.',
  'torus, nested shells, several bodies, heights through vertices, triangles spanning several heights, open meshes.',
  'same-height links in coarse meshes are only required to go through a part bounded by that height alone (which cap is meant is otherwise ambiguous).')
d('C29', 'Direct matrix chain products; weighted sums; a motion-file writer with its own evaluator; finite differences.',
  'random trees, channel orders, layouts of text.', 'ill-conditioned posing targets; orientation of the bone octahedron.')
d('C30', 'Range checks on every sample, moment and chi-square statistics with false-alarm probability below 1e-9, exact 48-bit generator recurrence, quadrature for spherical harmonics, series for Hankel functions.',
  'large sample counts and arbitrary seeds, extreme ranges.', 'Perlin noise is not required to have continuous derivatives.')
d('C31', 'Independent Bellman-Ford/Dijkstra, brute-force nearest, replay of the visiting log.',
  'random graphs, open and closed meshes, regions, pre-filled buffers.', 'cross-field smoothing may stop in a local minimum for a random coarse start.')
d('C32', 'Orientation and adjacency after every insertion, volume conservation, all-pairs empty sphere tests with margins, walks against set definitions.',
  'random, lattice-like and clustered points.', 'points nearly on a circumsphere are skipped and counted.')
d('C33', 'Projection of known points, round trip pixel to ray to pixel, rigid-motion residual of view matrices after arbitrary mouse histories, independent photogrammetric formulas, picks against a direct distance to the drawn handle.',
  'random histories, aspect ratios, poles avoided.', 'drag gain of the screen-space handles (half speed) is not judged beyond 0.3 to 1.05.')
d('C34', 'An own adaptive 10x10 Gauss-Legendre integration of the kernels over each panel, compared at a tolerance that shrinks with (panel size / distance)^(degree + 1) of the rule; solid angles in closed form; the analytic dipole flow around a ball; agreement of three independent formulations around other bodies; finite differences; conservation sums on the vortex grid.',
  'all six quadrature rules, random panel shapes, bodies, streams, wave numbers; particles on lattice points, on planes, coincident; a grid object used twice.', 'fields closer to a panel than its size; the sign convention of the wave panels; the own-panel term of the constant right hand side.')
d('C35', 'The epipolar products of the correspondences and the determinant; values and central differences of the stroke function, also against the moved stroke; the plate equations at and between the points; central differences of energy and gradient of the assembly, and an own balance of forces and moments on every body after solving.',
  'eight to many correspondences, refitted and cleared strokes, plates of different sizes, assemblies with joints, contacts and loads in random poses, copied assemblies.', 'degenerate correspondences and collinear plate points; bundle adjustment (its two headers include a missing file and cannot be compiled).')
d('C36', 'Own formulas for a point on a rolled panel; the pairs of every seam against arc positions on the two edges; area sums of panels; per-step bookkeeping of momentum, velocity and fixed points through a recording body stand-in; own exact point-to-triangle distances and solid-angle inside test for projected clouds, also with posed skins.',
  'positive and negative curvatures, straight and curved edges, several seams, long histories of steps and poses with the same projector, bodies of several kinds.', 'friction and self-collision (the library offers none here); rest-length drift of stiff cloth.')
