#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s} for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
N, NU = "cmmcore/nurbs.h", "cmmcore/nurbs_utils.h"

prop("C01", "Curve evaluation is the B-spline definition",
 "Evaluating a NURBS curve at any parameter of its domain gives the point the B-spline definition gives: the combination of its homogeneous control points (x,y,z,w) by the B-spline basis of its degree and knots, divided by the combined weight. This holds for every degree from 1 to 8, every clamped knot vector with any interior knot multiplicity up to the degree, at knots, between knots and at both domain ends, for unit and non-unit positive weights, and for default-generated knots.",
 ["inputs"], "all degrees 1..8, clamped knot vectors, positive weights, control points, parameters in the domain",
 "The tests evaluate one cubic at a few parameters and mostly print; the definition must hold for every degree/knot/weight/parameter combination, including knots of full multiplicity and domain ends.",
 [N, NU], [("curve evaluation", N+": NURBSCurve::evaluate"), ("de Boor basis", NU+": find_span, basis_funs, curve_point"), ("default knots", N+": generate_knots")], ["degree","knots","control points"])

prop("C02", "Knot insertion never changes a curve",
 "After any sequence of knot insertions at interior parameters (with a count that keeps the multiplicity at most the degree), a curve evaluates to the same point at every parameter as before. Its knot vector is the old one with exactly the inserted values added in sorted order, its control point count grows by exactly the inserted count, its domain is unchanged, and every control point that the insertion cannot influence is unchanged.",
 ["histories", "inputs"], "all histories of insertions over all curves (rational too), parameters on and off existing knots",
 "Shape preservation is a statement about every parameter after every history of insertions; tests check one insertion by eye.",
 [N, NU], [("insertion", N+": NURBSCurve::insert_knot"), ("Boehm/Oslo", NU+": knot_insertion, knot_insertion_kv, find_multiplicity")], ["knots","control points","domain"])

prop("C03", "Curve split and Bezier decomposition cover the curve exactly",
 "Splitting a curve at any interior parameter yields two clamped curves of the same degree whose domains are the parts of the original domain left and right of it (or [0,1] each when normalisation is requested) and which evaluate to the original's points there; a split at or outside the ends of the domain is refused with an exception and the original curve is never modified. Decomposing into Bezier pieces yields one piece per non-empty knot span, in order, each with degree+1 control points and together covering the domain with the original's points; this holds for repeated splits of pieces too.",
 ["histories", "inputs"], "all curves, split parameters on and off knots of any multiplicity, histories of splits",
 "A wrong span index shows only for particular multiplicities/degrees and particular pieces; tests split none of these.",
 [N], [("split", N+": NURBSCurve::split"), ("decompose", N+": NURBSCurve::decompose, uniqueKnots")], ["pieces"])

prop("C04", "Curve derivatives are the exact derivatives",
 "The analytic derivative of a curve at a parameter strictly inside a knot span (or at a domain end, one-sided) equals the exact derivative of the curve's parametrisation, for every degree 1 to 8 and for non-unit weights; asking for the list of derivatives of orders 0..d-1 returns each of them (zero above the degree for polynomial curves). The derivative curve of a polynomial curve has degree one less and evaluates to the exact derivative, and the finite-difference first and second derivatives approximate the exact ones.",
 ["inputs"], "all curves of degree 1..8, parameters away from breakpoints, derivative orders up to the degree",
 "Derivative recurrences are wrong only above some degree or order; tests look at one cubic and print.",
 [N, NU], [("derivatives", N+": NURBSCurve::derivative, derivatives, derivative_fdm, second_derivative_fdm, get_derivative"), ("recurrences", NU+": ders_basis_funs, curve_derivs_alg1, get_nurbs_derivative")])

prop("C05", "Span search, basis functions and knot tools obey their definitions",
 "For a clamped knot vector and a parameter in the domain, the span found is the index i with knot[i] <= u < knot[i+1] (the last non-empty span at the end), and the basis values on that span are the B-spline basis: non-negative, summing to one, equal to the Cox-de Boor values, with their derivatives up to the degree equal to the exact ones. Knot multiplicities count exactly the knots equal to the value, the unique-knot and multiplicity lists reproduce the knot vector, default-generated knots are clamped and uniform, and normalising knots maps them affinely onto [0,1].",
 ["inputs"], "all clamped knot vectors of degree 1..8, all parameters of the domain, at and between knots",
 "Span boundaries (repeated knots, last span) are where these functions break; tests probe a handful of values.",
 [NU, N], [("span/basis", NU+": find_span, basis_funs, ders_basis_funs"), ("knot lists", NU+": find_multiplicity, uniqueKnots, getKnotMultiplicities"), ("knot generation", N+": generate_knots, normalize_knots")])

prop("C06", "Knot refinement and removal keep the curve",
 "Refining a curve's knots (all interior spans to full multiplicity, or at listed knots, with any density) returns control points and knots that describe the same curve, every requested knot reaching multiplicity equal to the degree. Removing a knot that was inserted before, so that it is removable, returns the control points of the same curve without it.",
 ["histories", "inputs"], "all curves, refinement lists/densities, insert-then-remove histories",
 "Inverse operations must cancel for every curve and knot; no test exercises refinement or removal.",
 [NU], [("refinement", NU+": knot_refinement"), ("removal", NU+": knot_removal")])

prop("C07", "Periodic curves close and repeat",
 "A curve built as periodic from n control points wraps its first degree points at the end, uses uniform knots, reports the domain [0, n], and evaluates there to the periodic uniform B-spline of the original points: its value and its derivative agree at both ends of the domain. Making an already periodic curve periodic again changes nothing.",
 ["inputs"], "all degrees 1..3+, all closed and open control polygons, parameters in the periodic domain",
 "No test evaluates a periodic curve; closedness must hold for every polygon.",
 [N], [("periodic construction", N+": make_periodic, generate_knots_periodic, is_periodic, update_interval")], ["periodic flag","domain"])

prop("C08", "Curve state stays coherent under edits, copies, moves and joins",
 "After any history of constructing, copying, assigning, moving, replacing control points or knots, normalising and inserting, a curve's reported domain, periodicity, degree, knots and control points are those of the value it holds, a copy is independent of its source, and its bounding box contains every point of the curve and is the tight box of the dehomogenised control points. Joining two open curves of the same degree that share an end point gives one curve running through both curves' points from free end to free end, and joining curves that share none reports failure.",
 ["histories"], "all histories of edits/copies/moves; all end-matching cases of joins",
 "Stale cached state appears only after particular sequences of edits.",
 [N], [("edits", N+": set_control_points, set_knots, set_degree, bbox, rebuildAABB"), ("copies", N+": NURBSCurve copy/move/assign"), ("join", N+": NURBSCurve::join")], ["cached box","cached domain"])

prop("S01", "Surface evaluation is the tensor-product definition",
 "Evaluating a NURBS surface at any (u,v) of its domain gives the tensor-product B-spline combination of its homogeneous control points divided by the combined weight, for all degrees 1 to 8 in each direction, any clamped knots, non-square control nets and positive weights. The four domain corners give the four corner control points, and the flattened or dehomogenised control point lists are exactly the net in row-major order.",
 ["inputs"], "all degree pairs, knot vectors, nets, weights, parameters",
 "u/v mix-ups hide on square symmetric inputs; the tests evaluate one surface.",
 [N, NU], [("surface evaluation", N+": NURBSSurface::evaluate, generate_knots_u/v"), ("point", NU+": surface_point")], ["net","knots u/v"])

prop("S02", "Surface knot insertion never changes a surface",
 "After any sequence of knot insertions in u and v at interior parameters, a surface evaluates to the same point at every (u,v) as before. The net grows by exactly the inserted count in that direction only, the knots of that direction gain exactly those values in sorted order, and the other direction's knots and the domain are unchanged.",
 ["histories", "inputs"], "all histories of u/v insertions over all surfaces, rational too",
 "Requires every history and every (u,v); tests do none.",
 [N, NU], [("insertion", N+": NURBSSurface::insert_knot, insert_knot_u, insert_knot_v, flipControlPointsU")], ["net","knots"])

prop("S03", "Surface split, subdivision and decomposition tile the surface",
 "Splitting a surface in u or in v at an interior parameter yields two surfaces covering the two halves of the domain with the original's points, and a split at the domain edge is refused with an exception. Subdividing (at the middle or at given parameters) yields the four quadrants in the order (low u,low v), (low u,high v), (high u,low v), (high u,high v); decomposing yields one Bezier patch per knot-span cell, covering the domain exactly; the original is never modified.",
 ["histories", "inputs"], "all surfaces, split parameters on/off knots, both directions, histories of splits",
 "Index arithmetic differs per direction/multiplicity; pieces must agree everywhere.",
 [N], [("split", N+": split_surface_u, split_surface_v"), ("subdivide", N+": NURBSSurface::subdivide"), ("decompose", N+": NURBSSurface::decompose")])

prop("S04", "Isocurves and boundaries lie on the surface",
 "The isocurve of a surface at any parameter in range, in either direction, is a curve with the other direction's degree, knots and domain that evaluates to the surface's points along that line; a parameter out of range is refused with an exception. The four extracted boundary curves are the isocurves at u-min, u-max, v-min and v-max in that order, for the member functions and for the free functions used by the intersection code alike, and each curve's bounding box contains its points.",
 ["inputs"], "all surfaces (rational, non-square, custom knots), all parameters, both directions",
 "Direction/knot mix-ups are invisible with default knots and square nets.",
 [N, "cmmcore/boundary_intersection.h"], [("isocurve", N+": NURBSSurface::extract_isocurve, extract_surface_boundaries"), ("free isocurve", "cmmcore/boundary_intersection.h: extract_isocurve, extract_surface_boundaries")])

prop("S05", "Surface derivatives and normals are exact",
 "The derivative surface of a polynomial surface in u (or v) has that degree reduced by one, the matching net size, knots and domain, and evaluates to the exact partial derivative; mixed derivatives are obtained by repeating it. The numerical partial derivatives at interior parameters approximate the exact ones, and the normal is a unit vector along the cross product of the u and v partials whenever that does not vanish.",
 ["inputs"], "all polynomial surfaces, interior parameters, both directions",
 "Tests print one derivative; exactness must hold for all degrees, nets and directions.",
 [N], [("derivative surface", N+": NURBSSurface::get_derivative, derivative_u, derivative_v, normal")])

prop("S06", "Surface bounding boxes contain the surface",
 "A surface's bounding box is the tight box of its dehomogenised control points, so it contains the point at every (u,v) of the domain. This stays true after any history of knot insertions, splits, subdivisions and copies, each piece's box lying within its parent's.",
 ["histories", "inputs"], "all surfaces with positive weights, all parameters, all edit histories",
 "Containment is a for-all-parameters claim over all surfaces and edits.",
 [N, "cmmcore/aabb.h"], [("box", N+": NURBSSurface::bbox"), ("expand", "cmmcore/aabb.h: AABB::expand")])

prop("S07", "Derivative control nets and quotient derivatives are exact",
 "For any range of control points of a B-spline curve, and any range in each direction of a surface, the computed control points of the derivatives of every order up to the degree (for a surface: of every mixed order up to the requested total) are the control points of the corresponding repeated derivative curve or surface in that range, and the input is left unchanged. Given the homogeneous derivatives of a rational surface at a parameter, the computed derivatives of every mixed order up to the requested total are those of the quotient (generalised Leibniz rule), including when the weight's mixed derivatives do not vanish.",
 ["inputs"], "all degrees, knot vectors without vanishing denominators, index ranges, orders, homogeneous derivative tables with non-zero weight",
 "Sub-ranges, high orders and mixed weight terms are all special cases a sample misses; the test prints one curve.",
 [NU], [("nets of derivatives", NU+": curve_deriv_cpts, surface_deriv_cpts"), ("quotient rule", NU+": rat_surface_derivs")])

prop("M01", "Array view slicing and indexing address the right elements",
 "Any chain of slices (ranges with any step sign, single indices, negative indices, omitted trailing dimensions) and first-dimension indexing on an n-dimensional view gives a view whose shape and every element are those of the same chain on the mathematical array (Python slicing rules), sharing the underlying memory, so that a write through any view is seen by all. Out-of-range indices, too many slices and zero steps are refused with an exception, and no access outside the array ever happens.",
 ["histories", "inputs"], "all shapes up to 4 dimensions, all chains of slices, all element positions",
 "The test prints two slices; correctness is over all chains, steps and negative bounds.",
 ["cmmcore/memoryview.h"], [("slicing", "cmmcore/memoryview.h: MemoryView::slice, operator[], operator()")], ["data","shape","strides","offset"])

prop("M02", "Array view copies, reshapes and serialised forms keep the elements",
 "Copying a view gives an independent view with the same shape and elements (later writes to either do not show in the other); its element count is the product of its shape. Reshaping a contiguous view keeps its elements in row-major order and refuses a shape of different total size. Serialising any view (sliced or not) and deserialising it, through a buffer or a file, gives back the same shape and elements, and a truncated buffer or one of another element type is refused with an exception.",
 ["histories", "inputs"], "all views reachable by slicing/reshaping, all truncation points of the serialised form",
 "Strided and offset views are the hard cases; the tests only print.",
 ["cmmcore/memoryview.h"], [("copy/reshape/serialize", "cmmcore/memoryview.h: size, copy, reshape, serialize, deserialize, write_to_file, read_from_file")], ["data","shape","strides","offset"])

prop("R01", "Serialised geometry reads back identical",
 "Writing integers, doubles, booleans, 4-vectors, lists of doubles and of 4-vectors, curves and lists of curves to a buffer in any order, and reading them back in the same order, yields values identical to those written, bit for bit, each read consuming exactly the bytes written for its value. Curves keep their degree, periodicity, knots and control points through a buffer and through a file, and reading curves from a file that does not exist is refused with an exception.",
 ["histories", "inputs"], "all sequences of typed writes and reads, all values",
 "Round trips must hold for every type mix, nesting and order of writes.",
 ["cmmcore/serialization.h"], [("round trip", "cmmcore/serialization.h: serializeInt/Double/Bool/VectorDouble/Vec4/VectorVec4/NURBSCurve/NURBSCurves and their deserialize counterparts, file writer and reader")], ["buffer","cursor"])

prop("T01", "KD-tree answers like the set of its points",
 "After any history of bulk building and inserting, a KD-tree's range query returns exactly the stored points inside the closed query box (with multiplicity) and its nearest-neighbour query returns a stored point at the minimum distance. Its reported size is the number of stored points, and asking an empty tree for a nearest point is refused with an exception. Clustered, collinear and duplicate points and points lying on splitting planes behave the same.",
 ["histories", "inputs"], "all histories of build/insert, all query boxes and query points",
 "Pruning errors only show for points/queries on the wrong side of particular splits.",
 ["cmmcore/kdtree.h"], [("kd-tree", "cmmcore/kdtree.h: KDTree")], ["multiset of points"])

prop("V01", "Bounding volume hierarchies lose and invent nothing",
 "A bounding volume hierarchy over any list of boxed objects, built top-down or bottom-up, holds each object exactly once and every node's box is exactly the union of the boxes beneath it. Its queries are exact: the objects reported for a query box or query point are exactly those whose box meets it, traversal yields each object once, and intersecting two hierarchies reports each pair of objects exactly once: the iterative form exactly the pairs whose boxes share a point, the recursive form those whose boxes overlap with a volume above its 1e-6 threshold. Copying a hierarchy or putting two together under a new node keeps this.",
 ["inputs"], "all object lists (duplicates, touching, flat, nested), both builders, all queries",
 "A pruning or tree-assembly error drops objects only for particular box layouts and list sizes.",
 ["cmmcore/bvh.hpp", "cmmcore/aabb.h"], [("bvh", "cmmcore/bvh.hpp: build_bvh*, intersect_bvh*, traverse, contains_point")], ["tree"])

prop("A01", "Box algebra is the algebra of point sets",
 "A box contains exactly the points between its corners, inclusive; two boxes intersect exactly when they share a point; merging or expanding gives the smallest box containing both operands; the intersection box is exactly the common region. A box built from points is the smallest one containing them, the volume is the product of its extents, and the default box is empty: it is recognised as such and is the neutral element of merging and expanding.",
 ["inputs"], "all pairs/triples of boxes and points, including touching, flat, nested and disjoint ones",
 "Boundary (touching/degenerate) cases in each of three axes are not covered by any test.",
 ["cmmcore/aabb.h"], [("aabb", "cmmcore/aabb.h: AABB")])

prop("H01", "2D convex hull is exact",
 "The 2D convex hull of any list of points not all on one line is returned as a counter-clockwise strictly convex polygon whose vertices are input points and which contains every input point, with no repeated and no collinear vertices; points all on one line give the two extreme ones, and equal points one. This holds with duplicates, collinear runs and any input order, and for the general hull entry point, whose reported class (point, line, flat) is the hull's.",
 ["inputs"], "all finite point sets, orders, duplicates and collinear runs",
 "Sorting ties and collinear runs need specific inputs; the test prints one hull.",
 ["cmmcore/_convexhull/convexhull2d.h", "cmmcore/convexhull.h"], [("graham scan", "convexhull2d.h: convex_hull2d"), ("dispatcher", "convexhull.h: convex_hull")])

prop("H02", "3D convex hull is exact",
 "The 3D convex hull of any list of points not all on one plane returns input points only, every extreme point of the input is among them, none lies inside the hull, and it is reported as a volume. Points all on one plane, line or spot give exactly the extreme points and are reported as flat, line or point.",
 ["inputs"], "all finite 3D point sets not all coplanar, any order",
 "Facet bookkeeping goes wrong only for particular insertion orders; no test checks the result.",
 ["cmmcore/_convexhull/quickhull.hpp", "cmmcore/convexhull.h"], [("quickhull", "quickhull.hpp: convex_hull3d"), ("dispatcher", "convexhull.h: convex_hull")])

prop("P01", "Polygon containment and relations are correct",
 "A point off the boundary is reported inside a simple polygon exactly when it is, whichever orientation, start vertex or translation the polygon has. Two convex polygons are reported at a distance when they share no point, touching when they share only boundary points and intersecting otherwise, symmetrically; the edge normals of a polygon are perpendicular to its edges.",
 ["inputs"], "all simple polygons (convex and not), all points not on the boundary, all polygon pairs in general position",
 "Ray-crossing parity errors need vertices at the ray's height or non-convex shapes.",
 ["cmmcore/polygon.h"], [("polygon", "cmmcore/polygon.h")])

prop("X01", "Planar separation tests never separate touching sets",
 "The planar separation test reports two convex sets (polygons, segments or points) as separable exactly when they share no point, and the box test exactly when their bounding boxes share none. The outcome does not depend on the order of the two sets, on orientation or on the start vertex.",
 ["inputs"], "all pairs of convex polygons",
 "A false 'separable' silently loses intersections; it appears only for particular relative positions.",
 ["cmmcore/separability.h"], [("SAT 2D", "cmmcore/separability.h: SAT2D")])

prop("X02", "Spatial separation and collision tests are right",
 "When a spatial separation or collision test reports two point sets as separated, their convex hulls really share no point, and disjoint hulls are reported separated. This holds for points, segments, planar sets and volumes, whatever the order of the points and of the two sets.",
 ["inputs"], "all pairs of small point sets, any order of points",
 "A false 'separated' silently loses intersections; only particular simplices/directions trigger it.",
 ["cmmcore/separability.h", "cmmcore/gjk.h"], [("GJK", "cmmcore/gjk.h"), ("SAT3D", "cmmcore/separability.h: SAT3D")])

prop("X03", "Spherical separation certificates are valid",
 "When the direction-set test reports two sets of directions as separable on the sphere, a plane through the origin really has all of the first on one side and all of the second on the other, and whenever such a plane has all of them strictly off itself the sets are reported separable. The same holds for the test of two normal fields, which requires separability for either sign of the normals; overlapping cones are never reported separable.",
 ["inputs"], "all pairs of finite direction sets",
 "The certificate decides that a surface pair has no closed loops; false positives lose curves.",
 ["cmmcore/separability.h", "cmmcore/gauss_map.h"], [("spherical separability", "cmmcore/separability.h: SphericalSeparability")])

prop("I01", "Curve-curve intersection finds exactly the crossings",
 "Every reported curve-curve intersection is a pair of parameters inside the two domains whose points coincide within about twice the tolerance. Every transversal crossing is reported at least once, also when there are several, when they lie at ends of the curves or of their pieces, when the curves lie in any common plane or are rational, and when the curves are given in the other order or with other (equivalent) knots.",
 ["inputs"], "all pairs of planar/spatial curves with isolated transversal crossings",
 "Subdivision pruning loses crossings only for particular positions and rounding errors; the test prints one case.",
 ["cmmcore/ccx.h"], [("ccx", "cmmcore/ccx.h: ccx")])

prop("I02", "Curve-surface intersection finds exactly the crossings",
 "Every reported curve-surface intersection consists of parameters inside the three domains whose curve point and surface point coincide within the tolerance, together with that point. Every transversal crossing is reported at least once, also when there are several, when it lies at an end of the curve or on an edge of the surface or of one of their pieces, and when curve or surface are rational, flat, parallel to the axes or given with other (equivalent) knots.",
 ["inputs"], "all curve/surface pairs with isolated transversal crossings and knot spans longer than the tolerance",
 "Pruning loses crossings only for particular relative positions, edges and rounding errors; the tests print one example.",
 ["cmmcore/csx.h"], [("csx", "cmmcore/csx.h: csx"), ("separability", "cmmcore/separability.h"), ("point inversion", "cmmcore/csx.h: Newton's method")], ["stack of pieces"])

prop("I03", "Surface-surface intersection starts on every branch",
 "Every boundary intersection reported for two surfaces states the surface, edge and parameters it lies at consistently with its point, which is on both surfaces; every transversal crossing of an edge of one surface with the other surface is reported, and points further apart than the tolerance are never merged. Pairing boundary intersections uses every one exactly once, joining each with the nearest one left. Every start point reported by surface-surface intersection has parameters inside both domains and lies on both surfaces within the tolerance, every branch of a transversal intersection that reaches an edge of a surface gets a start point, and two surfaces whose bounding boxes are disjoint yield none.",
 ["inputs"], "all surface pairs with transversal intersections",
 "Lost branches need particular positions of the surfaces relative to each other and to their pieces; the tests print two examples.",
 ["cmmcore/ssx.h", "cmmcore/boundary_intersection.h"], [("boundaries", "cmmcore/boundary_intersection.h: extract_surface_boundaries, find_boundary_intersections"), ("pairing", "cmmcore/boundary_intersection.h: sort_boundary_intersections"), ("subdivision", "cmmcore/ssx.h: findStartIntersectionPoints, detectIntersections, processSimpleSurfaceIntersection")], ["pieces","branches"])

prop("L01", "Segment assembly uses every segment exactly once",
 "Assembling an unordered list of segments into polylines yields polylines whose consecutive points are exactly the given segments, each used once in either direction, and no others. Segments meeting end to end at points where exactly two segments meet are in the same polyline, so an open chain comes back whole and a closed loop comes back as one ring listing each of its points once, whatever the order and direction of the input.",
 ["inputs"], "all segment lists on a lattice, any order/direction, loops, chains, branches",
 "Order- and direction-dependent assembly errors need permutations of the input.",
 ["cmmcore/polyline.h"], [("assembly", "cmmcore/polyline.h: assemble_polylines")], ["unused segments","open polylines"])

prop("N01", "Quadrature and arc length are accurate and consistent",
 "Integrating a function over an interval evaluates it only inside the interval and gives its integral to the requested tolerance, exactly for cubics, with reversed limits giving the negated value. The arc length of a curve between two parameters is the length of that part of the curve - for curves of polynomial speed, straight curves, polylines and rational circles alike, across knots too - it is additive over adjacent intervals, and the parameter found for a requested length (or integral) on a curve without interior knots has that length.",
 ["inputs"], "all polynomials up to degree 3 exactly and up to degree 5 to tolerance, all intervals, curves of known exact length (Pythagorean-hodograph curves, lines, polylines, circles)",
 "Adaptive error control must hold for all integrands; tests print values.",
 ["cmmcore/integrate.h", N], [("simpson", "cmmcore/integrate.h: integrate, find_t1_newton"), ("length", N+": length, lengthAt")])

prop("N02", "Bounded minimisation respects its contract",
 "Bounded scalar minimisation evaluates the function only inside the bounds, returns a point inside the bounds together with the function's value there, makes no more evaluations than allowed (two or more), never returns a point worse than another it evaluated, and reports success only when it converged and the value is a number. For a unimodal function the point is within tolerance of the minimiser, and bounds that are not a proper interval are refused with an exception.",
 ["inputs", "histories"], "all unimodal piecewise functions, bounds, tolerances and evaluation budgets; the recorded sequence of evaluations",
 "The contract is about the whole sequence of evaluations for every function.",
 ["cmmcore/minimize_scalar.h"], [("brent", "cmmcore/minimize_scalar.h")], ["bracket","evaluations"])

prop("N03", "Linear solvers and Newton iteration solve what they are given",
 "The factorisation and solve for symmetric systems succeed exactly on positive definite matrices and return the solution of the system, the numeric gradient and Hessian approximate the exact ones, and the Newton minimiser started at any point converges to the minimiser of a strictly convex quadratic in any dimension.",
 ["inputs"], "all small SPD systems and convex quadratics",
 "Index errors show only for particular dimensions/patterns.",
 ["cmmcore/newthon2.h"], [("newton", "cmmcore/newthon2.h")])

prop("N04", "Matrices and binomial coefficients satisfy their algebra",
 "Matrix product, transpose, determinant and inverse agree with exact arithmetic for every well-conditioned matrix of any size, singular and non-conforming operands being refused with an exception. Solving a two-by-two system returns its solution or reports that there is none. Binomial coefficients equal the exact values for 0 <= n, k <= 30, zero for k > n.",
 ["inputs"], "all small integer matrices, all n,k in range",
 "Pivoting/row mix-ups and single table entries need specific inputs.",
 ["cmmcore/matrix.h", "cmmcore/binom.h"], [("matrix", "cmmcore/matrix.h"), ("binom", "cmmcore/binom.h")])

prop("N05", "Bezier and monomial forms are the same surface",
 "For polynomial (unit-weight) Bezier surfaces: converting to monomial form gives the polynomial whose value at every (u,v) of the unit square is the surface's point (relative to its domain), and converting back gives a surface on the unit square with the original control points, degrees, knots and bounding box. Partial derivatives (zero for a constant direction), cross products and normals in monomial form are those of the surface. Results do not depend on what a reused result object held before, copies are equal and independent, operands are unchanged.",
 ["inputs", "histories"], "all Bezier degree pairs and control nets, all histories of conversions into reused objects",
 "Coefficient mix-ups need unequal degrees and generic nets; stale contents need reused objects of other sizes.",
 ["cmmcore/monomial.h"], [("monomial", "cmmcore/monomial.h")])

prop("N06", "The Gauss map is the normal field",
 "The Gauss map of a polynomial Bezier surface on the unit square evaluates everywhere to the cross product of its u and v partial derivatives. Subdividing it gives four parts, in the library's order, that evaluate to the same directions over their quarter of the domain; the directions and opposite directions listed by each part are the control points of its map and their negatives, so that their cone contains every normal.",
 ["inputs", "histories"], "all polynomial Bezier surfaces, all (u,v), all subdivision histories",
 "The test prints; agreement is for all surfaces and parameters.",
 ["cmmcore/gauss_map.h"], [("gauss map", "cmmcore/gauss_map.h: GaussMap")])

prop("G01", "Planes: distances and intersections are exact",
 "A plane built from an equation, a normal, an origin and a normal or three points has the true signed distance everywhere (zero at its points); its intersections with rays, segments and one or two other planes lie on all of them, and are reported absent exactly when none exists. The coplanarity test accepts exactly the coplanar point lists, and plane coordinates map back to the original points.",
 ["inputs"], "all planes, points, lines, segments on an integer lattice",
 "Special axis cases (eliminated variable, parallel, through origin) need specific inputs; no test covers planes.",
 ["cmmcore/plane.h"], [("plane", "cmmcore/plane.h")])

prop("G02", "Closest points on segments, triangles and tetrahedra are closest",
 "The closest-point routines return a point of the given segment, triangle or tetrahedron, and no point of it is closer to the query point (for a tetrahedron: a query point outside it); on a line they return the foot of the perpendicular. This holds for queries facing vertices, edges, faces and the inside, and for every vertex order.",
 ["inputs"], "all lattice simplices and query points in every Voronoi region",
 "Each Voronoi region is a separate branch; no test covers them.",
 ["cmmcore/closest_point.h"], [("closest point", "cmmcore/closest_point.h")])

prop("G03", "Point inversion finds parameters on the domain with closest point",
 "Inverting a point that lies on a curve or a surface, or slightly off a curve or a flat surface, started from a parameter near the foot of the point (near: where Newton's method provably converges), returns the parameter of that foot within the tolerances; started on the exact parameter of a point, it stays there. Whatever the point, the start, the tolerances and the number of iterations, the result is never outside the domain (a surface inversion may instead report a singular system).",
 ["inputs"], "all curves/surfaces in the regular case, all parameters, starts near the solution",
 "Newton clamping/convergence branches are start- and position-dependent.",
 ["cmmcore/point_inversion.h"], [("inversion", "cmmcore/point_inversion.h")])

prop("G04", "Segment distances and central projections are exact",
 "The distance computed for two segments is that of a closest pair of their points, for every relative position: crossing, facing end points, parallel, overlapping on one line, or reduced to points. The parameters returned with it lie in [0,1], the returned points are the segments' points at these parameters and at this distance, and the overload without parameters returns the same distance. The central projection of a point onto the plane z=0 is where the line through the centre and the point meets that plane (a point at the centre's height keeps its x and y).",
 ["inputs"], "all pairs of segments, including degenerate and parallel ones; all centres and points",
 "Clamping needs the right order of cases; no test covers these functions.",
 ["cmmcore/numeric_utils.h"], [("distances", "cmmcore/numeric_utils.h: segmentsDistance, centerProjectionToXY")])

prop("E01", "STEP export is well formed and faithful",
 "Exporting a curve or surface writes well-formed entity lines whose ids increase from the given counter, with references only to entities of the same export; the returned id is that of a B-spline entity that states degree, Euclidean control points, multiplicities, knots and weights of the exported geometry in full precision, whatever the format flags of the stream. A surface's face is bounded by a closed loop of edges along its four boundary curves, each joining the end points of its curve. Several exports with one running counter never reuse an id, and exporting changes nothing. A file has the header, data and end sections; a file that cannot be opened is reported by an exception.",
 ["inputs", "histories"], "all surfaces and curves, all export sequences",
 "Well-formedness over all nets, degrees and knot multiplicities; the test only writes a file.",
 [N, "cmmcore/utils.h"], [("STEP", N+": toSTEP, writeSTEPFile"), ("lists", "cmmcore/utils.h: vectorToString")], ["entity id counter"])

prop("Q01", "Vector arithmetic is exact component algebra",
 "Addition, subtraction, scaling, dot and cross products (of 4-vectors with weight one), projection, lengths and distances of 2-, 3- and 4-vectors are the component-wise definitions in double precision, in every overload (in-place, output-argument and value-returning). Unit 2- and 3-vectors have length one and the direction of the original, and conversions between homogeneous and Euclidean and between Cartesian and spherical forms are inverse to each other.",
 ["inputs"], "all vectors with representable components, every overload",
 "Dozens of near-duplicate overloads, each able to differ in one component; no test covers them.",
 ["cmmcore/vec.h"], [("vec", "cmmcore/vec.h: vec2, vec3, vec4")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), [len(p["title"]) for p in P if len(p["title"]) > 80])
