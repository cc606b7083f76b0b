#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a=dict(files=["electrode/"+f for f in files],mechanism=[dict(name=n,where="electrode/"+w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a["state"]=state
    assert len(title)<=80,(id,title)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","Derivative orders of surface-electrode potentials are mutually consistent",
 "For pixel (point), polygon and mesh surface electrodes, with and without a cover plane, the derivative of order n+1 returned by potential() is the exact spatial gradient of the one of order n: for n = 0..4 every component of the fully expanded order n+1 tensor is the partial derivative of the matching component of the expanded order n tensor. The expanded tensors are therefore symmetric and traceless (the potential is harmonic) at every point off the electrode plane.",
 ["inputs","configurations"],"all points off the z=0 plane and off the edges, all polygons/pixels (any number, any vertices), all cover_nmax/cover_height, orders 0..5, compiled and pure-Python kernels",
 "The tests compare two or three points of one electrode and finite differences of low order with loose tolerances; the identity has to hold at every point for every geometry and every order.",
 ["cexpressions.pyx","expressions.py","electrode.py"],[("point_potential / edge kernels","cexpressions.pyx"),("fallback kernels","expressions.py"),("potential() methods","electrode.py")],["Electrode.potential"])

p("C02","Surface-electrode potential equals the analytic gapless-plane solution",
 "The order-0 potential of a pixel electrode at x is the sum over pixels of V*A*z/(2*pi*|x-p|^3) and that of a polygon electrode is the integral of the same density over its (signed) area, i.e. V times the signed solid angle over 2*pi. A cover plane adds the image sum over z+2*k*h for k=-nmax..nmax, values scale linearly with the potential argument, and the contribution is added to a supplied out array (a fresh zero array otherwise) with every point treated independently.",
 ["inputs","configurations"],"all evaluation points off the plane, all pixel/polygon sets (any number and size), all voltages, all cover settings, any initial out array, compiled and pure-Python kernels",
 "Tests check a handful of points above a few fixed polygons; vertex order, wrap-around edge, number of polygons, cover terms and the out accumulation are only sampled.",
 ["cexpressions.pyx","expressions.py","electrode.py"],[("kernels","cexpressions.pyx"),("fallback kernels","expressions.py"),("PointPixelElectrode/PolygonPixelElectrode.potential","electrode.py")],["PointPixelElectrode.potential","PolygonPixelElectrode.potential"])

p("C03","Compiled and pure-Python potential kernels compute the same function",
 "point_potential, polygon_potential and mesh_potential of the compiled extension and of the pure-Python fallback return the same values for the same arguments, for every derivative order 0..5, with or without cover plane and with or without an out array.",
 ["inputs","configurations"],"all points, geometries, voltages, orders, cover settings and out arrays",
 "Only whichever kernel got imported is ever exercised by the tests; the fallback is never compared with it.",
 ["cexpressions.pyx","expressions.py"],[("compiled kernels","cexpressions.pyx"),("fallback kernels","expressions.py")],["electrode.cexpressions.*","electrode.expressions.*"])

p("C04","System potentials are the voltage-weighted superposition of its electrodes",
 "System.electrical_potential(x, n, typ) equals the sum over all electrodes of their typ voltage times their unit-voltage potential derivative, in reduced form or (expand=True) as the expanded tensor; electrodes at zero voltage do not contribute. individual_potential returns, at index i, the unit-voltage contribution of electrode i alone, and time_potential is the dc part plus cos(t) times the rf part.",
 ["inputs","configurations"],"all systems (any number and kind of electrodes), voltages (zero, negative, equal), points, orders, times",
 "Tests use two or three fixed systems; superposition is a statement over all electrode sets and voltages.",
 ["system.py","electrode.py"],[("electrical_potential, individual_potential, time_potential","system.py")],["System.electrical_potential","System.individual_potential","System.time_potential"])

p("C05","Pseudopotential is the squared rf field and its exact derivatives",
 "With rf_coeff set, pseudo_potential(x, 0) is rf_coeff^2 times the squared magnitude of the rf field, and orders 1..4 are the exact gradient tensors of that scalar field (all 3^n components, each point separately); any other order raises ValueError. rf_scale(m, q, l, o) sets and returns rf_coeff = sqrt(q/m)/(2*l*o), and potential(x, n, typ) is the dc part, the rf pseudo part or their sum for typ 'dc', 'rf', 'tot'.",
 ["inputs","configurations"],"all systems, points, rf_coeff values and orders 0..4; all typ strings",
 "The stable tests evaluate few of these values (most trap tests fail for lack of rf_coeff); products of tensors of order up to 5 have hundreds of components nobody compares.",
 ["system.py"],[("pseudo_potential, potential, rf_scale","system.py")],["System.pseudo_potential","System.potential","System.rf_scale"])

p("C06","Tensor expansion and selection are inverse and produce harmonic tensors",
 "For every order 0..5, expand_tensor of a reduced derivative array is a fully symmetric tensor all of whose traces vanish, whose entries at the reduced names equal the input, and select_tensor recovers the input exactly; conversely expand_tensor(select_tensor(t)) = t for every symmetric traceless tensor t. Leading dimensions are preserved and treated independently.",
 ["inputs"],"all reduced tensors of order 0..5 with any number of rows",
 "The tests check a few random tensors of some orders; symmetry and trace identities concern all 3^n components for all values.",
 ["utils.py"],[("expand_tensor, select_tensor, maps","utils.py")],["utils.expand_tensor","utils.select_tensor"])

p("C07","Derivative names, indices and construction rules are consistent",
 "name_to_deriv/deriv_to_name and name_to_idx/idx_to_name/idx_to_nidx are mutually inverse for all derivative names of order 0..5, each order has exactly 2n+1 names, and find_laplace(c) yields exactly the pairs that complete c to a vanishing trace. deriv_to_reduced_idx gives for any derivative string of order n the reduced index (or the pair whose negated sum is that derivative), and construct_derivative(n, i) returns a lower-order entry and an axis whose derivative is entry i of order n.",
 ["inputs"],"all derivative strings over x, y, z of length 0..5 in any letter order and all (order, index) pairs",
 "The domain is finite but the tests touch a few entries only.",
 ["utils.py"],[("derivative maps","utils.py")],["utils.name_to_deriv","utils.deriv_to_reduced_idx","utils.construct_derivative","utils.find_laplace"])

p("C08","rotate_tensor contracts every tensor index with the rotation matrix",
 "rotate_tensor(c, r, order) equals the tensor whose entries are the sum over old indices of c times one factor r[old, new] for each of the last `order` axes (default all but the first axis), leaving the leading axes alone. Consequently it composes (rotating by r1 then r2 equals rotating by r1.r2) and is undone by the transpose of an orthogonal matrix, for every order.",
 ["inputs"],"all tensors of order 0..5 (any number of rows, any leading axes), all 3x3 matrices",
 "Tests rotate a few specific tensors by specific angles.",
 ["utils.py"],[("rotate_tensor","utils.py")],["utils.rotate_tensor"])

p("C09","Cartesian derivatives convert to the matching real spherical harmonics",
 "For l = 0..5 cartesian_to_spherical_harmonics maps the reduced order-l derivative tensor to 2l+1 coefficients, m = -l..l, that are the projections of the harmonic polynomial with those derivatives onto the real spherical harmonics in the documented convention (up to the documented global normalisation per order). The map is linear, injective and treats each point independently.",
 ["inputs"],"all reduced tensors of order 0..5",
 "Tests check only that a few values come out; every one of the 2l+1 coefficients and its normalisation matters.",
 ["utils.py"],[("cartesian_to_spherical_harmonics","utils.py")],["utils.cartesian_to_spherical_harmonics"])

p("C10","Polygon area and centroid are exact for every simple boundary",
 "area_centroid returns the shoelace area (positive for counter-clockwise boundaries) and the centroid of any polygon with any number of vertices. Both are unchanged by cyclic renumbering of vertices, reversing the order negates the area and keeps the centroid, and translating the polygon translates the centroid and keeps the area.",
 ["inputs"],"all vertex lists with non-zero area, any number of vertices",
 "Only a couple of polygons are tested.",
 ["utils.py"],[("area_centroid","utils.py")],["utils.area_centroid"])

p("C11","Converting polygons to points preserves identity, areas and orientation",
 "PolygonPixelElectrode.to_points() yields a point electrode with the same name, dc, rf and cover settings and one pixel per polygon at its centroid weighted with its signed area, in order. orientations() returns +1 for each counter-clockwise and -1 for each clockwise polygon (ones for point electrodes).",
 ["inputs","configurations"],"all polygon electrodes, any number of polygons, all attribute values",
 "Only one electrode is converted in the tests.",
 ["electrode.py","utils.py"],[("to_points, orientations","electrode.py")],["PolygonPixelElectrode.to_points","PolygonPixelElectrode.orientations"])

p("C12","Mesh electrodes reproduce the polygon system they are built from",
 "MeshPixelElectrode.from_polygon_system(s) has dc=1 and its potential, for every derivative order, equals the dc superposition of the polygon electrodes of s without cover. In general mesh_potential is the sum over edges of the edge contribution weighted with the potential of the polygon the edge belongs to.",
 ["inputs","configurations"],"all systems of polygon electrodes, any number of polygons and vertices, voltages, points and orders",
 "Tests compare one mesh at one point.",
 ["electrode.py","cexpressions.pyx","expressions.py"],[("from_polygon_system, MeshPixelElectrode.potential","electrode.py"),("mesh_potential","cexpressions.pyx")],["MeshPixelElectrode.from_polygon_system","MeshPixelElectrode.potential"])

p("C13","Cover electrode produces the uniform field between the plates",
 "CoverElectrode.potential adds V*z/height at order 0, V/height to the z component only at order 1, and nothing at any higher order, to each row of out (or to zeros), and returns an array with 2n+1 columns.",
 ["inputs","configurations"],"all points, heights, voltages, orders and out arrays",
 "A single cover test exists; higher orders, out handling and all points are not covered.",
 ["electrode.py"],[("CoverElectrode.potential","electrode.py")],["CoverElectrode.potential"])

p("C14","Grid electrodes interpolate the right component at the right place",
 "GridElectrode.potential(x, n) adds V times the linear interpolation of every component of the stored order-n data at the fractional voxel (x-origin)/spacing, accumulating into out, for each point independently. generate(maxderiv) leaves existing orders untouched and fills each missing order n<maxderiv so that component i is the finite-difference gradient, along the right axis and with the right spacing, of the right lower-order component.",
 ["inputs","configurations"],"all data, origins, spacings, points, orders 0..4",
 "Tests cover one grid; which component and axis feeds which derivative is not checked.",
 ["electrode.py","utils.py"],[("GridElectrode.potential, derive, generate","electrode.py")],["GridElectrode.potential","GridElectrode.generate"])

p("C15","with_voltages restores the previous voltages however the block ends",
 "Inside System.with_voltages(dcs, rfs) the electrodes carry the given voltages (None keeps the present ones), and after the block - whether it ends normally or by an exception, which propagates - every electrode has exactly the dc and rf values it had before; the same when assigning the given voltages fails on entry. Nested blocks unwind in order.",
 ["inputs","histories","fault_sequences"],"all systems, all given voltage arrays, all block bodies that end normally or raise, nesting",
 "Tests enter it once without an exception and with one of the two arguments.",
 ["system.py"],[("with_voltages","system.py")],["System.with_voltages"],[dict(name="dc, rf",meaning="electrode voltages",where="electrode/electrode.py:Electrode")])

p("C16","Name and voltage accessors address the right electrodes",
 "System.names, dcs and rfs read back, in order, exactly what was assigned through them or on the electrodes, and assigning one leaves the others untouched. Indexing a system by integer gives that electrode (IndexError when out of range) and by name the first electrode of that name, or None when there is none.",
 ["inputs","histories"],"all systems (duplicate names, empty systems), all assigned sequences, all keys",
 "Tests look up one or two names.",
 ["system.py"],[("names, dcs, rfs, __getitem__","system.py")],["System.names","System.dcs","System.rfs","System.__getitem__"])

p("C17","group() partitions the electrodes by voltage bin",
 "System.group(thresholds, voltages) returns len(thresholds)+1 electrodes, the i-th holding exactly the paths of the electrodes j with thresholds[i-1] <= voltages[j] < thresholds[i] in their original order (with -inf and +inf at the ends), so each electrode lands in exactly one group. Each group's dc and rf are the means over its members and voltages defaults to the system's dcs.",
 ["inputs","configurations"],"all polygon systems, sorted thresholds, voltage arrays (including values equal to a threshold)",
 "Only a doctest-like use exists; boundary values and defaults are untested.",
 ["system.py"],[("group","system.py")],["System.group"])

p("C18","Potential objectives evaluate the named derivative in the given frame",
 "PotentialObjective(x, derivative, rotation) yields for each electrode the named derivative of its unit-voltage potential at x expressed in the rotated frame, for every derivative string of order 0..5 including those not in the reduced basis. MultiPotentialObjective yields the value-weighted sum of its components, and value/offset/min/max turn into the proportional objective, equality, lower and upper bound of that same linear functional of the voltages; PatternRangeConstraint bounds all (or the indexed) voltages.",
 ["inputs","configurations"],"all systems, points, derivative strings, rotations, weights, bounds",
 "Tests use a few names with no rotation.",
 ["pattern_constraints.py","utils.py"],[("get, objective, constraints","pattern_constraints.py")],["PotentialObjective.get","MultiPotentialObjective.get","Constraint.constraints"])

p("C19","Optimized voltages realise the requested objectives proportionally",
 "Voltages p and strength c returned by System.optimize make every objective equal to c times its requested value (when the objectives are linearly independent), satisfy every constraint, and c is the largest such strength. Objectives whose requested value is zero are nulled.",
 ["inputs","configurations"],"all systems and all linearly independent objective sets with at least one non-zero value",
 "The optimisation tests cover one trap; which linear equations are handed to the solver is not examined.",
 ["system.py"],[("optimize","system.py")],["System.optimize"])

p("C20","solve() adds up every constraint set's objective and constraints",
 "System.solve passes to the optimiser the sum of the weighted objectives of all local constraint sets (each with its own voltage vector) and all global constraints, and every constraint of each of them; it returns one voltage row per local set and the objective value.",
 ["inputs","configurations"],"all lists of local constraint sets and global constraints",
 "Only a single-objective use is tested.",
 ["system.py","pattern_constraints.py"],[("solve","system.py"),("VoltageDerivativeConstraint","pattern_constraints.py")],["System.solve"])

p("C21","shims() returns one unit-response vector per objective",
 "System.shims returns one row per (x, coord, derivative) and per extra objective, in that order: row i is the optimised pattern divided by its strength for the problem in which objective i has value 1 and all others value 0, under the given constraints (by default all voltages between -1 and 1). Afterwards all objective values are zero.",
 ["inputs","histories"],"all lists of coordinates/derivatives and extra objectives",
 "One system is tested for one list.",
 ["system.py","pattern_constraints.py"],[("shims","system.py")],["System.shims"])

p("C22","Minimum and saddle searches use the true gradient and Hessian",
 "System.minimum and System.saddle hand their optimiser a function, gradient and Hessian that are the total potential and its exact first and second derivatives with respect to the coordinates being varied, for every choice of axes and every coordinate frame; minimum returns the point in the given frame with non-varied coordinates unchanged and raises ValueError when the optimiser reports failure.",
 ["inputs","configurations"],"all systems, start points, axis subsets and orthogonal coordinate frames",
 "Tests only use the default frame and all axes, where transposed frames go unnoticed.",
 ["system.py","utils.py"],[("minimum, saddle","system.py"),("rotate_tensor","utils.py")],["System.minimum","System.saddle"])

p("C23","Rational-function optimisation keeps its bookkeeping exact",
 "In every iteration of rfo the step is at most dx_max long, the running x, f and g reported to the callback are the current point and the function and gradient there, and the updated Hessian stays symmetric and satisfies the secant condition (new Hessian times step equals the gradient change). It stops with 'xtol', 'ftol' or 'iter' only when the respective criterion is met.",
 ["inputs","histories"],"all functions, gradients, start points, Hessians and option values; all iterations",
 "No stable test covers intermediate iterations.",
 ["saddle.py"],[("rfo","saddle.py")],["saddle.rfo"])

p("C24","modes() returns eigenpairs of the curvature in ascending order",
 "System.modes(x) returns eigenvalues and column eigenvectors of the Hessian of the total potential at x such that column i of the vectors belongs to value i; with sorted=True the values ascend.",
 ["inputs"],"all systems and points",
 "Tests compare a few numbers for one trap, where eigenvalues happen to be ordered.",
 ["system.py"],[("modes","system.py")],["System.modes"])

p("C25","mathieu() builds the exact truncated Floquet matrix",
 "utils.mathieu(r, a0, a1, ...) returns the eigenvalues and eigenvectors of the first-order Floquet system of x'' + (a0 + 2 a1 cos 2t + ...) x = 0 truncated at harmonics -r..r, for any dimension and number of coefficients. System.mathieu passes a = 16 s^2 times the dc curvature and q = 8 s^2 times the rf curvature and returns, when sorted, the non-negative-frequency branches in ascending order with matching eigenvectors, halved.",
 ["inputs","configurations"],"all r >= 0, all coefficient matrices, any number of them; all systems and points",
 "The function cannot even run in this environment (removed numpy alias), so no test exercises it.",
 ["utils.py","system.py"],[("mathieu","utils.py"),("System.mathieu","system.py")],["utils.mathieu","System.mathieu"])

p("C26","Mathieu class solutions obey recurrence, initial values and derivatives",
 "Coefficients computed by the Mathieu class satisfy the three-term recurrence G_n C_n = C_{n-1} + C_{n+1} for all interior n (to the continued-fraction truncation), the even solution is 1 with weight sum one and the odd solution has unit slope at t=0. sol_y1/sol_y2 with deri=k are the k-th time derivatives of the deri=0 solutions, and init_value returns coefficients reproducing the given value and slope at t0.",
 ["inputs"],"all a, q, nu with non-vanishing denominators, all nc, ng, t, t0 and derivative orders",
 "The class has no stable tests.",
 ["mathieu.py"],[("coeff_ratio, coeff_Cn, sol_y1, sol_y2, init_value","mathieu.py")],["Mathieu.coeff_Cn","Mathieu.sol_y1","Mathieu.sol_y2","Mathieu.init_value"])

p("C27","Grid index and coordinate conversions agree and invert each other",
 "For a Grid, coordinates_to_indices inverts indices_to_coordinates, index 0 maps to get_origin(), the grid is centred at center, and to_xyz, to_mgrid and to_points enumerate exactly the coordinates center+step*(i-(shape-1)/2) in C order.",
 ["inputs","configurations"],"all centers, steps, shapes and indices",
 "Tests build one grid.",
 ["grid.py"],[("Grid","grid.py")],["Grid.*"])

p("C28","Spherical coordinate maps invert; harmonic index packing is a bijection",
 "spherical_to_cartesian and cartesian_to_spherical are mutually inverse on r>0, 0<theta<pi, and the two directions of derivatives_spherical_cartesian undo each other for all angles off the axis. The (n, m) -> array-position packing used for harmonic coefficients is a bijection onto the nmax x nmax array with m>=0 at (m, n) and m<0 at (nmax+m, nmax-1-n), for every nmax.",
 ["inputs"],"all coordinates, gradients and nmax",
 "No stable tests touch this module.",
 ["spherical_harmonics.py"],[("conversions, indices","spherical_harmonics.py")],["spherical_harmonics.*"])

p("C29","Rotation and Euler-angle conversions are exact and mutually inverse",
 "For all 24 axis conventions euler_matrix(ai, aj, ak, axes) is the product of the three elementary rotations of that convention, hence orthogonal with determinant one, and euler_from_matrix returns angles that reproduce the rotation matrix. rotation_matrix(angle, direction, point) is the rotation by the angle about the axis through the point, and the quaternion constructors represent these same rotations.",
 ["inputs","configurations"],"all angles, all 24 conventions, all directions and points",
 "Doctests try random angles with a tolerance for some conventions.",
 ["transformations.py"],[("euler_matrix, euler_from_matrix, quaternion_from_euler, rotation_matrix, quaternion_matrix","transformations.py")],["transformations.*"])

p("C30","Quaternion algebra matches rotation composition",
 "quaternion_multiply, conjugate and inverse satisfy the quaternion identities: quaternion_matrix of a product is the product of the matrices, conjugate and inverse undo it, the norm is multiplicative, and quaternion_about_axis and quaternion_matrix agree with rotation_matrix.",
 ["inputs"],"all quaternions (non-zero where inverted) and axes",
 "Doctests use single examples.",
 ["transformations.py"],[("quaternion_*","transformations.py")],["transformations.quaternion_multiply","transformations.quaternion_matrix"])

p("C31","Adjust keeps a consistent voltage history per electrode",
 "Saving voltages through Adjust appends exactly one entry to the history of every electrode: the new value for electrodes in the configuration, the previous value for all others, so all histories stay equally long, and the system carries the configured dc values. Proposed configurations add the same voltage change to every electrode of one group to its last recorded value, and rejecting a proposal restores the last recorded voltages.",
 ["inputs","histories"],"all systems, all sequences of set/accept/reject steps, all group configurations",
 "The class has no tests.",
 ["adjust.py"],[("set_volts, construct_config, next_step","adjust.py")],["Adjust.set_volts","Adjust.next_step"],[dict(name="volts",meaning="voltage history per electrode",where="electrode/adjust.py:Adjust")])

p("C32","XIC polygons are parsed completely and in metre scale",
 "xic_to_list returns, for each polygon record of an XIC file in order, the array of all its vertices scaled by 1e-8, whatever the number of continuation lines, and ignores blank and unrelated lines.",
 ["inputs"],"all line sequences of the documented form",
 "No test; under Python 3 the function raises on every polygon.",
 ["xic.py"],[("xic_to_list","xic.py")],["xic.xic_to_list"])

p("C33","Voltage-derivative constraints weigh the exact finite differences",
 "VoltageDerivativeConstraint of order k and step d without smoothing yields, for each admissible start index i, the k-th finite difference sum_j (-1)^(k-j) C(k,j) v[i+j*d] divided by d^k, and uses the one or inf norm of it as objective with the given weight and as min/max bound.",
 ["inputs","configurations"],"all numbers of voltage sets, orders and steps",
 "Only one order and step is tested.",
 ["pattern_constraints.py"],[("VoltageDerivativeConstraint","pattern_constraints.py")],["VoltageDerivativeConstraint.get"])

p("C34","Polygon export keeps every ring with the right orientation and order",
 "Polygons.to_system makes one electrode per named entry, in order, whose paths are, for each valid non-empty polygon, the exterior ring traversed counter-clockwise followed by its interior rings traversed clockwise, each without the closing point. square_pads produces disjoint squares of the given step on the lattice inside the given edge.",
 ["inputs"],"all polygon collections",
 "Tests run a few layouts and look at counts.",
 ["polygons.py"],[("to_system, square_pads","polygons.py")],["Polygons.to_system","square_pads"])

p("C35","GDS import and polygon clean-up preserve the electrode geometry",
 "Reading electrode geometry from GDS data and the boolean clean-up operations (gaps, overlaps, simplification, restriction) keep the union of the electrode areas up to the requested gap width, and no two electrodes overlap afterwards.",
 ["inputs"],"all layouts",
 "Tests run two layouts.",
 ["polygons.py"],[("from_gds, from_data, remove_overlaps, add_gaps","polygons.py")],["Polygons.*"])

p("C36","Spherical harmonic analysis inverts synthesis",
 "For every nmax, SphericalHarmonics.analysis(synthesis(a)) = a for every coefficient array a, and synthesis of a single coefficient samples the corresponding normalised Y_nm on the Gauss-Legendre grid.",
 ["inputs","configurations"],"all nmax and coefficient arrays",
 "The module's self tests are not part of the suite.",
 ["spherical_harmonics.py"],[("SphericalHarmonics","spherical_harmonics.py")],["SphericalHarmonics.analysis","SphericalHarmonics.synthesis"])

p("C37","ions() minimises the true total energy and returns the Hessian's eigenpairs",
 "System.ions(x0, q) searches with the total energy of the ions (external potential at every ion plus q_i q_j/|x_i - x_j| once per pair), its exact gradient and its exact Hessian, for any number of ions including one, starting at x0. It returns the position the search ended at as one row per ion, and the Hessian there has the returned eigenvalues (ascending) with ev[:, :, k] the displacement of each ion in mode k.",
 ["inputs"],"any number n >= 1 of ions at pairwise different positions, any charges, any system",
 "The two tests that call ions() do not pass in this environment and used two and three ions only; a wrong axis order or sign shows up for other numbers of ions or off-axis positions only.",
 ["system.py"],[("System.ions","system.py")],["System.ions"])

p("C38","trajectory() integrates Newton's equation in the instantaneous potential",
 "System.trajectory(x0, v0, axis, t0, dt, t1, nsteps) gives the integrator the acceleration minus the gradient of time_potential at the current position and time along the varied axes, with the other coordinates held at x0; it starts from t0, x0, v0, integrates consecutive intervals [t, t+dt] with nsteps reporting, until t1 is reached, and yields (t, position, velocity) snapshots which later steps do not change. The caller's x0 and v0 (any array_like) are left as they were.",
 ["inputs","histories"],"all initial conditions (lists, tuples, integer or float arrays), axis tuples, times, systems, integrators and numbers of steps",
 "The only test is one trajectory with a symmetric start; the direction of the acceleration, aliasing of yielded arrays and the treatment of fixed axes are not observed by it.",
 ["system.py"],[("System.trajectory","system.py")],["System.trajectory"])

p("C39","Homogeneous transformation matrices act on space as their names say",
 "For all arguments the 4x4 matrices of transformations.py act on points exactly as named: translation, reflection in a plane, rotation about an axis through a point, scaling about a point (along the unit vector of a direction), orthogonal, parallel and perspective projection onto a plane, clip matrices mapping the box or frustum to [-1,1]^3, shear, and the metric of a crystal cell; compose_matrix is the product perspective.translation.rotation.shear.scale, decompose_matrix recovers factors that compose to the same transform (also at a middle angle of 90 degrees), concatenate_matrices is the product in order, inverse_matrix the inverse, is_same_transform compares up to a factor. Inadmissible arguments raise ValueError, arguments stay unchanged, and the Python and the C implementations agree.",
 ["inputs","configurations"],"all points, directions (longer than 1e-12), angles, factors, cells and regular matrices; arrays, lists or tuples",
 "Doctests look at a few random matrices through the implementation that is loaded; only one of Python and C is ever run.",
 ["transformations.py","transformations.c"],[("*_matrix, compose_matrix, decompose_matrix","transformations.py"),("py_*_matrix","transformations.c")],["transformations.*_matrix","transformations.compose_matrix","transformations.decompose_matrix"])

p("C40","Rotations interpolate, randomise and drag as documented",
 "quaternion_slerp returns the unit quaternion at the given fraction of the great arc between the two rotations (extra spins and the shortest path as asked, the end points at fractions 0 and 1); random_quaternion and random_rotation_matrix map three numbers to the documented unit quaternion and its matrix; the trackball maps window points to the unit sphere and constrains them to the great circle perpendicular to an axis, and Arcball turns the ball, from the orientation it had when pressed, by the rotation taking the pressed point to the current one, whatever was dragged in between; vector_norm, unit_vector, vector_product and angle_between_vectors act along the given axis for every shape. The Python and the C implementations agree and arguments stay unchanged.",
 ["inputs","histories","configurations"],"all non-zero quaternions, fractions, spins; all points, centres, radii and axes; sequences of press and drag; arrays of any size",
 "Doctests use random samples, short sequences and only the implementation that is loaded.",
 ["transformations.py","transformations.c"],[("quaternion_slerp, random_quaternion, Arcball, arcball_*, vector_norm, unit_vector","transformations.py"),("py_quaternion_slerp, py_random_*, py_arcball_*","transformations.c")],["transformations.quaternion_slerp","transformations.Arcball","transformations.unit_vector"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
