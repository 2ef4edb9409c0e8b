PROPS = [
 dict(id='C01', title='A parameter always lands in exactly one non-empty knot span',
  statement='For every sorted knot vector and every parameter inside the domain, the located span is non-empty and contains the parameter (right-open except at the end of the domain, where the last non-empty span is used), and parameters before or after the domain are assigned to the first or last span. The range of poles and basis functions reported as active is exactly the degree+1 functions of that span and never leaves the pole array.',
  forall='every degree, pole count, sorted knot vector with repeated knots, and parameter, including ends, knots and values one rounding step away',
  why='The suite evaluates a handful of curves at a few interior parameters; off-by-one errors at repeated knots, at the domain end, or for long knot vectors need particular inputs.',
  files=['gbs/knotsfunctions.ixx', 'gbs/basisfunctions.ixx'],
  mech=[('span search', 'gbs/basisfunctions.ixx find_span / find_span_range'), ('active band', 'gbs/basisfunctions.ixx basis_band_extent')],
  note='Unbounded proof of the three functions for all degrees, sizes, knots and parameters over real arithmetic; std::upper_bound/lower_bound are modelled by their standard contract; the same contract is also evaluated on the compiled code.'),
 dict(id='C02', title='Basis functions and their derivatives obey the Cox-de Boor recursion',
  statement='On any knot vector, the degree+1 basis values computed at a parameter equal the Cox-de Boor basis functions of that span, are non-negative and sum to one. Every derivative order computed for them equals the exact derivative of those functions, and orders above the degree are zero.',
  forall='every degree up to the supported maximum, sorted knot vector, parameter and derivative order',
  why='Tests compare a few degrees and knot vectors; errors limited to a derivative order, to repeated knots, or to a span position are not sampled.',
  files=['gbs/basisfunctions.ixx'],
  mech=[('value recursion', 'gbs/basisfunctions.ixx basis_funcs'), ('derivative tables', 'gbs/basisfunctions.ixx ders_basis_funs, basis_ders'), ('recursive reference', 'gbs/basisfunctions.ixx basis_function')],
  note='basis_funcs: unbounded proof (all degrees up to the stack limit, all knots). ders_basis_funs / basis_ders for order >= 1 and the recursive basis_function: bounded symbolic execution (concrete degrees and knots, symbolic parameter), labelled bounded. Real arithmetic.'),
 dict(id='C03', title='Curve evaluation is the exact B-spline combination of its poles',
  statement='For every degree, knot vector, poles, parameter in the domain and derivative order, the value returned by a polynomial curve is the sum of its poles weighted by that derivative of the basis functions; orders above the degree give exactly zero. Asking for all orders at once, for the ends, for a list of parameters, or through a knots-with-multiplicities construction gives the same values, and a parameter outside the domain is refused rather than evaluated.',
  forall='every dimension 1-3, degree, knot vector, pole set, parameter and derivative order',
  why='Tests evaluate a few fixed curves; the sum over the active poles must be right for every span, order and repeated-knot pattern.',
  files=['gbs/bscurve.h', 'gbs/basisfunctions.ixx'],
  mech=[('evaluation', 'gbs/basisfunctions.ixx eval_value_decasteljau, eval_ders_decasteljau'), ('curve class', 'gbs/bscurve.h BSCurve::value, derivatives, begin, end, values')],
  note='Unbounded proof for the evaluation functions and for constructing and evaluating a curve object, modulo the basis and span contracts (C01, C02) and check_curve (C21); list evaluation, ends, function wrapper and arc-length derivatives are evaluated on compiled code against an exact rational oracle.'),

 dict(id='C04', title='Rational curves evaluate to the exact quotient, for every derivative order',
  statement='A rational curve built from poles and weights evaluates to the weighted B-spline sum divided by the weight function, and its derivatives of every order are the exact derivatives of that quotient, whether one order or all orders are requested. Attaching, separating, projecting and scaling weights are exact inverses where documented and never change the point set described; giving all poles the same weight gives the polynomial curve.',
  forall='every dimension, degree, knot vector, pole set with non-vanishing weight function, parameter and derivative order up to the supported maximum',
  why='Tests check first and second derivatives of circles; the quotient rule, binomials and weight bookkeeping must be right for every order and weight distribution.',
  files=['gbs/basisfunctions.ixx', 'gbs/bscurve.h', 'gbs/math.ixx', 'gbs/bsctools.h'],
  mech=[('quotient rule', 'gbs/basisfunctions.ixx eval_rational_ders, eval_rational_value_simple'), ('rational curve class', 'gbs/bscurve.h BSCurveRational'), ('weight bookkeeping', 'gbs/basisfunctions.ixx merge_weights, separate_weights, scale_weights, weight_projection'), ('binomials', 'gbs/math.ixx binomial_law')],
  note='Unbounded proof of the quotient rule (all orders, dims 2 and 3), of the class, and of the weight bookkeeping for any number of poles, modulo the homogeneous evaluation contract (C03). binomial_law is a bounded check (every 0<=k<=n<=30). Real arithmetic. Mean-weight scaling is evaluated on compiled code.'),
 dict(id='C05', title='Surface evaluation is the exact tensor-product combination of the pole grid',
  statement='For every pair of degrees, knot vectors, pole grid, parameters in the domain and pair of derivative orders, a surface evaluates to the double sum of the products of both basis derivatives with the pole grid, each grid entry used with its own row and column; mixed orders above a degree are zero. The table of all mixed orders equals the single evaluations. Rational surfaces give the exact quotient and its mixed derivatives, iso-curves are the restrictions of the surface, list evaluation gives the same values, and parameters outside the bounds are refused.',
  forall='all degrees, knot vectors, non-square pole grids, parameters and mixed derivative orders',
  why='Tests use small, often square and symmetric, grids with equal degrees and low orders, where swapped indices or dropped mixed terms do not show.',
  files=['gbs/bssurf.h', 'gbs/basisfunctions.ixx'],
  mech=[('tensor product evaluation', 'gbs/basisfunctions.ixx eval_value_decasteljau (surface), eval_ders_decasteljau (surface)'), ('rational derivatives', 'gbs/basisfunctions.ixx eval_rational_ders (surface)'), ('surface classes', 'gbs/bssurf.h BSSurface, BSSurfaceRational, isoU, isoV')],
  note='Unbounded proof of single and all-order evaluation (dims 1 and 3) and of constructing and evaluating a surface object, modulo the basis, span and check_curve contracts (C01, C02, C21). Rational mixed derivatives, iso-curves, lists and arc-length derivatives: compiled code against an exact rational oracle.'),
 dict(id='C06', title='Inserting knots never changes the curve or surface',
  statement='Inserting a knot any number of times, at any parameter of the domain, yields an object that is the same function of the parameter everywhere. The value is added as often as asked but never beyond the degree in multiplicity, all other knots are untouched, the pole count grows by exactly the number of knots added, and the same holds for rational objects, for lists of knots and for each direction of a surface independently.',
  forall='every degree, knot vector, parameter (at, beside or between knots, at the ends), multiplicity and pole set',
  why='Tests insert a knot into a few curves and compare some points; re-layout errors at repeated knots, near the ends, for full multiplicity or non-square grids need particular inputs.',
  files=['gbs/knotsfunctions.ixx', 'gbs/bscurve.h', 'gbs/bssurf.h'],
  mech=[('Boehm insertion', 'gbs/knotsfunctions.ixx insert_knots, insert_knot'), ('curve class', 'gbs/bscurve.h insertKnot, insertKnots'), ('surface class', 'gbs/bssurf.h insertKnotU, insertKnotV')],
  note='Unbounded proof of insert_knots (dims 1 and 3): knots, pole count and every new pole equal the blossom recursion, for all degrees, sizes and multiplicities. That the blossom recursion keeps the function is a bounded symbolic check (degrees 1-5, symbolic poles). Insertion in curve and surface objects, plain and rational, along U and V: unbounded proof that exactly that operation is applied to the object (to every row or column of poles). Lists of knots: compiled code against an exact rational oracle.'),
 dict(id='C07', title='Removing a knot undoes an insertion and respects the tolerance',
  statement='Removing a knot takes out at most the occurrences asked for and present, leaves every other knot and every pole away from it as it was, and gives poles from which re-inserting the knot restores the previous ones, up to the deviation measured at the one place where the two sides meet. With a tolerance, every removal made has a deviation within it, it stops only when the next removal would exceed it, and it reports how many were made; a knot that was just inserted is therefore always removed and the original poles come back. A value which is no interior knot, including the ends of the domain, changes nothing. The curve classes, plain and rational, do exactly this.',
  forall='every degree, knot vector, multiplicity, number of removals, tolerance and poles',
  why='Tests remove one knot from one or two curves; even and odd multiplicities, repeated removals, knots near the ends and more removals than occurrences take different paths through the index arithmetic.',
  files=['gbs/knotsfunctions.ixx', 'gbs/bscurve.h'],
  mech=[('unconditional', 'gbs/knotsfunctions.ixx remove_knot(u,num,U,P,p)'), ('within a tolerance', 'gbs/knotsfunctions.ixx remove_knot(u,p,num,U,Pw,tol)'), ('once', 'gbs/knotsfunctions.ixx remove_knot(u,p,U,Pw,tol)'), ('curve objects', 'gbs/bscurve.h removeKnot')],
  note='Unbounded proof of both multiple removals (all six loops, dims 1 and 3), of the classes modulo that contract and check_curve, of the refusals of all three versions, and of the lemma that inserting the knot again restores the poles; distance by contract. The removal path of the single version (std::list) is only evaluated on compiled code, as is everything else, against the specification computed exactly.'),
 dict(id='C08', title='Degree elevation changes the degree and nothing else',
  statement='Elevating the degree of a clamped curve or surface, plain or rational, by any step leaves every point where it was, keeps the domain and the distinct knots, raises every multiplicity by the step (so the smoothness at each knot is kept), gives the matching number of poles and the raised degree, and for surfaces touches one direction only, row by row. A single Bezier segment is elevated to the control points of the same polynomial, and splitting a curve into Bezier segments gives one per span, each describing the curve on it.',
  forall='every degree, elevation step, clamped knot vector with interior multiplicities up to the degree, and poles',
  why='Tests elevate a couple of curves by one; repeated knots, several steps, rational weights and non-square surfaces go through knot insertion, per-segment elevation and knot removal together.',
  files=['gbs/knotsfunctions.ixx', 'gbs/bscurve.h', 'gbs/bssurf.h'],
  mech=[('segments', 'gbs/knotsfunctions.ixx increase_bezier_degree, bezier_segments'), ('curves', 'gbs/knotsfunctions.ixx increase_degree; gbs/bscurve.h increaseDegree'), ('surfaces', 'gbs/bssurf.h increaseDegreeU, increaseDegreeV')],
  note='Unbounded proof of the Bezier elevation sums (any degree and step, modulo the binomial coefficients) with the lemma that they describe the same polynomial, and of the curve and surface classes modulo a contract for increase_degree. increase_degree itself (lists of lists) is only decided within bounds: 8 knot vectors, degree 1-4, steps 1 and 2, all poles, plus evaluation on compiled code. Not covered: unclamped knots and interior multiplicity degree+1, which increase_degree does not support.'),
 dict(id='C09', title='Trimming keeps exactly the requested part of the shape',
  statement='Trimming a curve between two parameters, given in either order, yields a curve whose domain is exactly that interval and which is the same function of the parameter on it; every other interior knot and its multiplicity is kept, and the poles outside the interval are dropped. Trimming at an end of the domain removes nothing there. Restricting the bounds without trimming leaves knots and poles alone. Surfaces behave the same way in each direction, the other direction being untouched, and so do rational objects.',
  forall='every degree, knot vector, pair of parameters of the domain (at knots, between knots, at the ends, ascending or descending) and pole set',
  why='Tests trim two or three curves between ordinary parameters; cuts at repeated knots, at the ends, in descending order and surfaces trimmed along V need particular inputs.',
  files=['gbs/knotsfunctions.ixx', 'gbs/bscurve.h', 'gbs/bssurf.h'],
  mech=[('head and tail', 'gbs/knotsfunctions.ixx trim_begin, trim_end, trim'), ('curve class', 'gbs/bscurve.h trim'), ('surface class', 'gbs/bssurf.h trimU, trimV')],
  note='Unbounded proof, over real arithmetic: trim_begin and trim_end against the contract of insert_knots (proved in C06), trim and the curve classes against those, the surfaces row by row against trim; why dropping knots leaves the rest of the shape alone is a lemma on the basis functions. Precondition: clamped knots, bounds in the domain and more than twice the knot tolerance apart. Compiled code against an exact rational oracle for the function itself.'),
 dict(id='C10', title='Knot vectors and their multiplicities convert without loss',
  statement='Splitting a flat knot vector into distinct values and multiplicities and rebuilding it gives back the same vector; the number of occurrences reported for a value is the real one. Knot vectors built from parameters or ranges have the requested degree, are sorted, are clamped at both ends with multiplicity degree+1 and have exactly the length that matches the pole count. Normalising a parameter list maps it affinely onto the unit interval, and inserting a value in an ordered list keeps it ordered, inserts it once and drops nothing (the unique version inserts unless a value already lies within the tolerance).',
  forall='every knot vector, multiplicity pattern, degree, parameter list and inserted value',
  why='Tests convert one or two vectors with simple ends; counts at repeated interior knots, at the last knot and for values close to another need particular inputs.',
  files=['gbs/knotsfunctions.ixx', 'gbs/bscurve.h'],
  mech=[('conversion', 'gbs/knotsfunctions.ixx unflat_knots, flat_knots, multiplicity, knots_and_mults'), ('construction', 'gbs/knotsfunctions.ixx build_mult_flat_knots, build_simple_mult_flat_knots'), ('ordered insertion', 'gbs/knotsfunctions.ixx insert_ordered, insert_unique_ordered, adimension')],
  note='Unbounded proof of all listed functions for all lengths, over real arithmetic; constructors taking knots with multiplicities and the reported knots and multiplicities of a curve: compiled code against an independent oracle.'),
 dict(id='C11', title='Reversing, rescaling and swapping parameters keep the shape',
  statement='A reversed curve is the original with its parameter mirrored in its domain, restricted bounds included, and reversing twice gives the original back; changing the bounds is an affine change of parameter that lands exactly on the requested bounds and leaves every point where it was. A surface reversed along U or V, rescaled along U or V, or with its two directions swapped is the original surface read at the correspondingly changed parameters, with degrees, knots, bounds and poles consistent. Rational objects behave the same way.',
  forall='every degree, knot vector (also not starting at 0), new bounds, pole grid (also not square)',
  why='Tests reverse or rescale a few objects over symmetric or unit domains, where a wrong mirror or offset cannot be seen.',
  files=['gbs/bscurve.h', 'gbs/bssurf.h', 'gbs/knotsfunctions.ixx', 'gbs/polestools.h'],
  mech=[('curves', 'gbs/bscurve.h reverse, reversed, changeBounds'), ('knots', 'gbs/knotsfunctions.ixx change_bounds'), ('surfaces', 'gbs/bssurf.h reverseU, reverseV, invertUV, changeUBounds, changeVBounds')],
  note='Unbounded proof of every listed operation for plain and rational objects over real arithmetic, plus lemmas that the basis functions of mirrored or rescaled knots are the mirrored or rescaled ones; the shape itself is compared on compiled code with an exact rational oracle.'),
 dict(id='C12', title='The pole grid is read and rearranged consistently',
  statement='Pole (i, j) of a surface is the one of index i along U and j along V whatever the shape of the grid; reading a row, reading a column, swapping the two directions, transposing and flattening all agree with that layout and lose nothing; an index outside the grid raises an exception or, for rows and columns, yields the last one as documented, and never reads elsewhere. Describing a surface and building it back yields the same surface.',
  forall='every grid size (also a single row or column), every index, every block size of the transposition',
  why='Tests use square or symmetric grids, where exchanging the two indices is invisible, and never leave the grid.',
  files=['gbs/bssurf.h', 'gbs/polestools.h'],
  mech=[('access', 'gbs/bssurf.h pole, polesU, polesV'), ('swap', 'gbs/polestools.h inverted_uv_poles, invert_uv_poles'), ('transpose and flatten', 'gbs/polestools.h transpose_poles, flatten_poles')],
  note='Unbounded proof of inverted_uv_poles, pole, polesU and polesV for plain and rational surfaces; transpose_poles, flatten_poles and the description of a surface: compiled code against a direct computation.'),
 dict(id='C13', title='Point and vector algebra is exact in every dimension',
  statement='Sums, differences, scalar multiples, quotients, scalar and vector products, norms, distances, unit vectors and oriented angles of points are the textbook ones, coordinate by coordinate in every supported dimension, whatever overload is used, and leave their operands alone. Applied to lists of points (distances, polyline lengths, element-wise operations) they pair each element with its own counterpart and cover every element.',
  forall='every dimension 1-4 and all coordinates; lists of any length',
  why='All geometry is built from these; tests exercise them indirectly with few, often symmetric, values.',
  files=['gbs/vecop.ixx'],
  mech=[('operators', 'gbs/vecop.ixx'), ('lists', 'gbs/vecop.ixx')],
  note='Unbounded proof of every operator for all values, and of the list functions for all lengths (polyline length as a recursively defined ghost). sqrt and atan2 are uninterpreted with their defining facts. Same contracts evaluated on compiled code.'),
 dict(id='C14', title='Transforming an object transforms exactly the points it describes',
  statement='Translation, rotation in the plane, about a centre and about an axis, scaling (uniform or along a coordinate, about any centre), frames and 4x4 matrices act on a point as the corresponding affine map; a frame-to-frame transformation takes the origin and axes of the source frame to those of the target. Applied to a curve or surface, plain or rational, every pole is moved by that map, weights are kept, and so every point of the object is moved by it.',
  forall='all points, angles, non-null axes, frames, centres and factors; curves and surfaces of any size, with any weights',
  why='Tests transform a few objects about the origin with unit weights; wrong handling of weights, centres, source frames or one coordinate only shows on general values.',
  files=['gbs/transformpoints.h', 'gbs/transform.h'],
  mech=[('points', 'gbs/transformpoints.h translate, rotate, scale, build_trf_matrix, transform'), ('objects', 'gbs/transform.h transform, translate, rotate, scale')],
  note='Unbounded proof: point and frame level for all values (Rodrigues rotation), object level for any number of poles and any weights, plus lemmas that rotations keep lengths and affine maps commute with the B-spline sum. cos, sin, sqrt uninterpreted with their defining facts. Same contracts evaluated on compiled code.'),
 dict(id='C15', title='Curves and surfaces derived from others agree with what they are derived from',
  statement='A curve or surface defined from another one (reversed, trimmed, extended, reparametrized, offset in plane or space, composite, curve on a surface, line, circle, surface of revolution) evaluates, at every parameter, to the point its definition prescribes from the basis object, and its derivatives are the derivatives of that same mapping: chain rule for compositions, sign alternation when reversed, linear or clamped continuation outside the bounds, derivatives of the offset including those of the offset function. Reported bounds are those of the mapping; parameters or orders it cannot serve are refused. Derivatives with respect to arc length, evaluation over lists of parameters, begin and end values all agree with point evaluation.',
  forall='every basis curve, surface and offset function; all parameters and derivative orders, all radii, axes and angles',
  why='Tests evaluate a few derived curves at order 0 or 1 on one basis curve; higher orders, curved basis with non-unit speed, off-origin axes and parameters outside the bounds are rarely hit together.',
  files=['gbs/curveReversed.h', 'gbs/curvetrimmed.h', 'gbs/curveextended.h', 'gbs/curvereparametrized.h', 'gbs/curveoffset.h', 'gbs/curvecomposite.h', 'gbs/curveonsurface.h', 'gbs/curveline.h', 'gbs/curvecircle.h', 'gbs/surfaceofrevolution.h', 'gbs/bscurve.h'],
  mech=[('compositions', 'gbs/curveonsurface.h value; gbs/curvereparametrized.h value'), ('offsets', 'gbs/curveoffset.h value'), ('continuations and restrictions', 'gbs/curveextended.h, gbs/curvetrimmed.h, gbs/curveReversed.h, gbs/curvecomposite.h'), ('primitive shapes', 'gbs/curveline.h, gbs/curvecircle.h, gbs/surfaceofrevolution.h'), ('generic curve interface', 'gbs/bscurve.h Curve::values, d_dm, d_dm2, begin, end')],
  note='Unbounded proof with the basis curve, surface and offset function abstract (uninterpreted functions of parameter and order), so the contracts hold for every basis object; polynomial identities with inverses and square roots decided by a ring normal form before the SMT solver. cos, sin, sqrt uninterpreted with their defining facts. Same contracts evaluated on compiled code with polynomial basis objects.'),
 dict(id='C16', title='Parameter ranges and point parametrisations are ordered and hit both ends',
  statement='A range of n values starts exactly at the first bound, ends exactly at the last, is evenly spaced and has exactly n values, with fewer than two values refused; grids in two or three parameters list every combination exactly once in the documented order. The parameters given to a list of points start at 0, increase with the chosen rule (uniform, chord length, centripetal), and end at 1 when normalised.',
  forall='all bounds, counts and lists of points',
  why='Tests build a few ranges; rounding at the last value, counts of one, and index mix-ups on non-square grids need particular inputs.',
  files=['gbs/knotsfunctions.ixx', 'gbs/gbslib.h'],
  mech=[('ranges', 'gbs/gbslib.h make_range'), ('parametrisation', 'gbs/knotsfunctions.ixx curve_parametrization')],
  note='Unbounded proof for all counts (grid functions by nested invariants and index lemmas), over real arithmetic; same contracts evaluated on compiled code including rounding at the last value.'),
 dict(id='C21', title='Only well-formed definitions are accepted, and they are kept as given',
  statement='A curve or surface can only be built from a definition that is a B-spline: knots in ascending order, as many knots as poles plus degree plus one, at least degree+1 poles, a full grid of poles for a surface, one weight per pole and one multiplicity per knot. Every such definition is accepted and the object holds exactly the poles, knots, degrees and bounds it was given (poles times weights for rational objects given weights); every other one is refused with an exception, without reading outside the lists, whatever the sizes and degrees. Replacing poles or knots by lists of another length, or asking for a pole that does not exist, is refused and leaves the object as it was.',
  forall='all lists of any length (also empty), all degrees and pole counts up to the full range of size_t, all indices',
  why='Tests try one or two malformed definitions; empty lists, sums that wrap around in unsigned arithmetic and lists of mismatched lengths need particular inputs and read out of bounds silently.',
  files=['gbs/bscurve.h', 'gbs/bssurf.h', 'gbs/basisfunctions.ixx', 'gbs/knotsfunctions.ixx'],
  mech=[('validation', 'gbs/bscurve.h check_curve'), ('curve constructors', 'gbs/bscurve.h BSCurveGeneral, BSCurveRational; gbs/basisfunctions.ixx merge_weights, add_weights_coord'), ('surface constructors', 'gbs/bssurf.h BSSurfaceGeneral, BSSurfaceRational'), ('access and replacement', 'gbs/bscurve.h pole, copyPoles, movePoles, copyKnots; gbs/bssurf.h copyPoles, movePoles')],
  note='Unbounded proof: check_curve for every list and every 64-bit degree and count with machine wrap-around modelled, then the constructors and the guarded accessors against its contract, including which definitions raise. Knots that step back by less than twice the knot tolerance may be accepted. Not a number is outside the real-arithmetic model; that a refusing object is left as it was is checked on compiled code.'),
 dict(id='C19', title='Interpolated curves and surfaces meet their constraints',
  statement='A curve interpolated through points passes through every point at its parameter, also when derivatives are prescribed at the points, in any order and number per parameter, when curves are built in batches and when only end points and free constraints are given; a surface interpolated through a grid or through constraints passes through each of them. The result has one pole per constraint and the degree asked for; a degree too high for the number of constraints is refused. Computed parameters start at 0 and advance by equal steps, by the chord lengths or by their square roots. Tangents computed from three neighbouring points follow the Bessel formula at every point, the ends included, and are exact on a parabola.',
  forall='all points, parameters, knots and degrees (within the fast-path table limit), all constraint orders and counts for which the system has a solution, all sizes',
  why='Tests interpolate a handful of fixed point sets; the band layout, the elimination and the ordering of constraints must be right for every span pattern, size and degree, and the end tangents are only asserted through curves that accept any tangent.',
  files=['gbs/bscinterp.h', 'gbs/bssinterp.h', 'gbs/knotsfunctions.ixx', 'gbs/vecop.ixx'],
  mech=[('collocation matrix', 'gbs/bscinterp.h band_lu::assemble_and_factorize, assemble_and_factorize_constraints; gbs/knotsfunctions.ixx basis_band_extent'), ('elimination and solves', 'gbs/bscinterp.h band_lu::factorize_inplace, solve'), ('whole interpolation', 'gbs/bscinterp.h build_poles, interpolate; gbs/bssinterp.h build_poles, interpolate'), ('parameters and tangents', 'gbs/knotsfunctions.ixx curve_parametrization; gbs/bscinterp.h build_3pt_tg_vec, build_3pt_tg_dir; gbs/vecop.ixx delta, blend, adim')],
  note='Unbounded proof of the banded path: every entry of the band is the collocation value of its row and column (one, two and three constraints per point, and constraints at arbitrary parameters), elimination stays in the band and computes the factors, the triangular solves invert them, and a lemma chain shows that the matrix times the result is the right-hand side. Also proved: the three parametrizations and the three-point tangents. The fallback through Eigen, the copying of right-hand sides in and out of Eigen matrices and the surface systems are checked by exact evaluation of compiled results at every constraint.'),
 dict(id='C18', title='Joined, extended and unified curves keep the curves they are made of',
  statement='Joining two curves, plain or rational and of whatever degrees, gives one curve of the higher degree that follows the first curve on its own parameters and then the second with its parameters shifted to start where the first ends; when the ends differ the common point is their middle. Bringing a list of curves to a common description gives all of them the highest degree and the same knots on the domain of the first curve, each knot with the highest multiplicity it has in any of them and none lost, and leaves every curve with the shape it had. A curve extended to a point keeps its original part and ends at the point; a curve given one more coordinate keeps its poles and knots.',
  forall='all curves, plain or rational, of all degrees and numbers of poles, on all domains, with all interior multiplicities up to the degree, in lists of any length',
  why='Tests join and unify a few curves of similar degree on the unit interval, without weights; mixed degrees, mixed kinds, shifted domains, non-unit end weights and repeated knots present in only one of the curves are combined rarely.',
  files=['gbs/bsctools.h', 'gbs/basisfunctions.ixx', 'gbs/knotsfunctions.ixx'],
  mech=[('join', 'gbs/bsctools.h join'), ('common description', 'gbs/bsctools.h unify_degree, unify_knots, unify_curves_degree, unify_curves_knots'), ('extension and dimension', 'gbs/bsctools.h extended_to_point, add_dimension')],
  note='Unbounded proof: join, for plain, rational and mixed curves of every size and degree, against the contract of degree elevation (C08), with the common factor of the weights; unify_knots, giving one curve the knots of another, against the contract of knot insertion (C06), the flat knots represented by the count of each value. The passes over whole lists, extension to a point and added coordinates are decided on compiled code only, as is the shape after the whole pipeline (exact rational oracle).'),
 dict(id='C17', title='Built shapes, derivative and integral curves are exact',
  statement='A built segment joins its two points, over the unit range or the distance between them. A built ellipse or circle passes exactly through every point of that ellipse and no other, once, counter-clockwise from the first axis, with its vertices at the quarters of the parameter range and positive weights, in the plane of its centre. The derivative curve of a B-spline has one degree less and takes, inside every span, the value of the derivative; the integral curve has one degree more, starts at the given point and has the curve as its derivative, so that deriving an integral gives the curve back.',
  forall='all points, centres and non-null radii; all curves without an interior knot repeated more than the degree, of every size and degree, on all domains',
  why='Tests integrate and derive one curve on a domain that starts at 0, with simple knots, and check one ellipse about the origin; the poles, knots and weights are exact formulas that only a proof settles for every size.',
  files=['gbs/bscbuild.h', 'gbs/transformpoints.h'],
  mech=[('shapes', 'gbs/bscbuild.h build_segment, build_ellipse, build_circle'), ('calculus', 'gbs/bscbuild.h build_derivate, build_integrate')],
  note='Unbounded proof: poles, knots and degree of the derivative and integral curves for every size and degree (loop invariants), every pole, knot and weight of the shapes, and lemmas that each quarter lies on the ellipse with positive weights that deriving an integral gives the poles back, and that the sum with these poles is the derivative of the sum (summation by parts over the derivative formula of the basis functions). Same contracts evaluated on compiled code at degree+1 points of every span.'),
]
NA = [
 dict(id='C31', title='Closest points and intersections are the closest',
  statement='The closest point of a curve or surface to a point, and the closest points or the intersection of two curves or of a curve and a surface, are at the smallest distance over the whole domain, within the tolerance asked for.',
  forall='all curves, surfaces, points, starting values and tolerances',
  why='The distance has many local minima; tests start near the right one.',
  files=['gbs/extrema.h'], mech=[('minimisation', 'gbs/extrema.h extrema_curve_point, extrema_curve_curve, extrema_surf_pnt')],
  reason='The result is whatever the external optimisation library (NLopt) returns for a callback; a contract strong enough for the property would have to assume global convergence of a numerical optimiser, which is the property itself and is false in general.'),
 dict(id='C32', title='Approximated curves and surfaces are least-squares best fits',
  statement='The curve or surface approximating a list of points has the smallest sum of squared distances among those with the same knots and degree, and refinement stops below the tolerance asked for.',
  forall='all point lists, degrees, knots and tolerances', why='Tests fit a few smooth samples.',
  files=['gbs/bscapprox.h', 'gbs/bssapprox.h'], mech=[('least squares', 'gbs/bscapprox.h approx; gbs/bssapprox.h approx')],
  reason='The fit is solved by a QR factorisation of the Eigen library, whose expression templates are outside the reach of the verifier and whose contract (minimiser over the reals) would be assumed whole; the refinement loop depends on the optimisers of C31.'),
 dict(id='C33', title='Triangulations satisfy the Delaunay condition',
  statement='Triangulating points or a face gives triangles that cover it without overlap, keep the boundary edges, and contain no other vertex in their circumcircles; orientation and in-circle tests have the exact sign.',
  forall='all point sets, also nearly degenerate ones, and all boundaries', why='Failures come from rounding in nearly degenerate configurations and from histories of edge flips.',
  files=['inc/topology/tessellations.h', 'inc/topology/robustPredicates.h'], mech=[('predicates', 'inc/topology/robustPredicates.h'), ('insertion and flips', 'inc/topology/tessellations.h')],
  reason='The predicates are about rounding errors, which obligations over real arithmetic erase, and bit-precise floating point obligations for these expansions are out of reach of the solvers here; the mesh is a cyclic graph of shared pointers changed in place, for which the verifier has no ownership or reachability logic.'),
 dict(id='C34', title='Objects written to a file come back the same',
  statement='A curve or surface written to a supported file format and read back has the same poles, knots, degrees and weights.',
  forall='all objects', why='Tests write and read a few objects with short decimal values.',
  files=['gbs-io/tojson.h', 'gbs-io/fromjson2.h', 'gbs-io/iges.h'], mech=[('writers', 'gbs-io/tojson.h; gbs-io/iges.h'), ('readers', 'gbs-io/fromjson2.h')],
  reason='Decided by the text formatting and parsing of external libraries (rapidjson, iostreams), which would have to be assumed whole; the code of the repository only forwards fields.'),
]
