#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["return values of the public methods"]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
F32="stroke_verif_f32 cfg: selects the 32-bit-target scalar configuration on a 64-bit host"
BZ=["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs","src/bezier_segment.rs"]

p("C01","Curve evaluation is the Bernstein polynomial of the control points",
 "For every line segment, quadratic, cubic and general Bézier curve of any dimension and any degree, evaluating at any t in [0,1] returns the Bernstein-weighted sum of the control points, coordinate by coordinate, up to floating-point rounding. The direct and the De Casteljau evaluation of the same curve, the evaluation through the segment wrapper and through the spline trait all return this same point.",
 ["inputs","configurations"],"all control points (finite, magnitude up to 1e100 in double precision), all t in [0,1], all dimensions 1.., all point counts 1.., both scalar widths",
 "The tests evaluate three fixed 2-D curves (4, 3 and 6 control points with |coordinates| < 10) and compare the library with itself; other degrees, dimensions, scales, degenerate layouts and the wrapper type are never evaluated.",
 BZ+["src/spline.rs"],[("direct polynomial evaluation","QuadraticBezier::eval, CubicBezier::eval"),("unrolled De Casteljau","eval_casteljau"),("in-place De Casteljau over a copy of the control points","Bezier::eval"),("dispatch","BezierSegment::eval, Spline::eval")],hook=F32)
p("C02","Curves start and end at their end points and stay in the control hull",
 "Every Bézier-type curve, however evaluated, passes through its first control point at t=0 and its last control point at t=1. For every t in [0,1] each coordinate of the curve (and its projection on any direction) lies between the smallest and the largest value taken by the control points, up to rounding.",
 ["inputs","configurations"],"all control points, all t in [0,1], all directions",
 "Only one six-point curve is checked at its ends and no test checks hull containment.",
 BZ,[("convex combinations with weights summing to one","eval / eval_casteljau of every curve type")],hook=F32)
p("C03","Splitting yields two curves that retrace the original exactly",
 "Splitting any line segment, quadratic, cubic, general Bézier curve or wrapped segment at any t in [0,1] yields two curves of the same type such that the first at parameter s equals the original at s*t and the second at s equals the original at t+s*(1-t), up to rounding. The first part starts at the original start, the second ends at the original end, and both share the point at t.",
 ["inputs"],"all control points, all split parameters t in [0,1], all s in [0,1], all degrees and dimensions, repeated splitting",
 "Tests split three fixed curves at t=0.5 only; at 0.5 any confusion of t with 1-t is invisible, and LineSegment and BezierSegment splitting is not tested at all.",
 BZ,[("De Casteljau triangle edges","split")],hook=F32)
p("C04","The derivative curve is the exact parametric derivative",
 "For every line segment, quadratic, cubic and general Bézier curve with at least two control points, the derivative object evaluated at any t in [0,1] equals the true derivative of the curve's polynomial with respect to t, up to rounding. It has exactly one degree less, and repeated derivation yields the higher derivatives.",
 ["inputs"],"all control points, all t in [0,1], all degrees >= 1 and dimensions, derivatives of derivatives",
 "No test calls derivative() on any curve.",
 BZ,[("scaled differences of neighbouring control points","derivative")],hook=F32)
p("C05","Per-axis samplers agree with the curve and its derivative",
 "For line segments, quadratic and cubic curves, sampling one coordinate axis at t in [0,1] equals that coordinate of the evaluated point. For quadratic and cubic curves the direct derivative sampled on one axis at t equals that coordinate of the derivative curve at t.",
 ["inputs"],"all control points, all t in [0,1], every axis index below the dimension",
 "No test calls axis() or dd() on any curve.",
 BZ[:3],[("expanded scalar polynomials","axis, dd")],hook=F32)
p("C06","Bounding boxes contain the whole curve and touch it on every side",
 "The box returned for any line segment, quadratic or cubic curve contains the point at every t in [0,1] in every dimension, and each of its sides is attained by the curve, up to rounding relative to the coordinates plus a few machine epsilons. Lower bounds never exceed upper bounds.",
 ["inputs"],"all control points including monotone, degenerate, collinear, degree-elevated and nearly degenerate layouts, all dimensions",
 "Two fixed 2-D curves are checked for containment within 0.01 only; tightness, other dimensions and the numerically delicate cases (vanishing or tiny leading coefficient of the derivative) are never reached.",
 BZ[:3],[("axis-wise extrema from the roots of the derivative","bounding_box, QuadraticBezier::real_roots, LineSegment::root"),("root filter to (0,1) and endpoint candidates","bounding_box")],hook=F32)
p("C07","Bézier arc length is the length of the n-chord flattening",
 "For every quadratic, cubic and general Bézier curve and every step count n >= 1, the arc length equals the total length of the n chords joining the points at the evenly spaced parameters 0, 1/n, ..., 1, covering the curve from its start to its end. Hence it is never below the distance between the end points, never above the length of the control polygon, and converges to the true arc length as n grows.",
 ["inputs"],"all control points, all step counts from 1 to thousands, all degrees and dimensions",
 "One circle approximation with 1000 steps is checked within 0.01, which hides a missing chord; n=1, small n and other curves are not run.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs"],[("flattening loop","arclen")],hook=F32)
p("C08","Point-to-curve distance is attained on the curve and nearly minimal",
 "For every quadratic, cubic and general Bézier curve and every query point the reported distance is never smaller than the true minimum distance between the point and the curve over t in [0,1]. It never exceeds the distance to any of the points at the 65 evenly spaced parameters i/64, and it exceeds the smallest distance found within 1/128 in parameter of the nearest of those samples by at most 1/1000 of the curve's maximal speed.",
 ["inputs"],"all control points, all query points (on, near, far, beyond either end, at centres of curvature), all degrees and dimensions",
 "Tests only compare the distances of two points against each other on one curve.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs"],[("coarse pass over the parameter grid","distance_to_point"),("fine pass around the best sample","distance_to_point")],hook=F32)
p("C09","Distance to a line segment is the exact Euclidean distance",
 "For every segment and every point the reported distance is the Euclidean distance from the point to the nearest point of the segment: the foot of the perpendicular when it falls inside, otherwise the nearer end point. Segments shorter than the square root of machine epsilon may be treated as a point; up to that and rounding the result is exact.",
 ["inputs"],"all segments and points in any dimension, projections before, inside, at and beyond both ends",
 "One point projecting exactly on the start is tested, with an assertion that cannot fail on too small values; points beyond the end are never tried.",
 ["src/line.rs"],[("clamped projection parameter","LineSegment::distance_to_point")],hook=F32)
p("C10","Linearity and point predicates decide what they document",
 "is_linear holds for a quadratic or cubic curve (directly or wrapped) exactly when its end points are distinct (farther apart than the square root of machine epsilon) and every inner control point lies within the tolerance of the segment joining the end points; a wrapped line segment is always linear. is_a_point holds whenever all control points are within the tolerance of each other and never when some control point is farther than twice the tolerance from the start; baseline always joins the first and last control point.",
 ["inputs"],"all control points, all non-negative tolerances including zero, collinear, overshooting, coincident and nearly coincident layouts",
 "No test calls is_linear, is_a_point or baseline.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs","src/line.rs"],[("distance of inner control points to the baseline","are_points_colinear"),("squared distance comparisons","is_a_point")],hook=F32)
p("C11","All representations of one curve give the same answers",
 "The same control points used through the specialised type, the general Bézier type, the segment wrapper or a clamped single-span B-spline describe the same curve: evaluation, split, derivative, end points, baseline, linearity, arc length and distance agree between all representations that offer them, up to rounding (for distances: up to the search resolution).",
 ["inputs","configurations"],"all control points of 2 to 4 points and, between the general Bézier and the single-span B-spline, up to degree 7; all t in [0,1]",
 "Two tests compare eval only, on one cubic and one quadratic; BezierSegment and B-splines are never compared with anything.",
 BZ+["src/bspline.rs"],[("independent implementations of the same curve","all curve types"),("enum dispatch and conversions","BezierSegment")],hook=F32)
p("C12","Results are invariant under change of frame, reversal and extra axes",
 "Translating, scaling by a power of two or permuting the coordinate axes of all inputs transforms every result (points, splits, derivatives, boxes, lengths, distances) accordingly and changes nothing else; each coordinate of a result depends only on the same coordinate of the inputs where the operation is coordinate-wise. Reversing the control points reverses the parameter and leaves box, arc length and distance unchanged up to rounding.",
 ["inputs"],"all control points, translations, power-of-two scales, axis permutations and embeddings in higher dimensions",
 "Tests use fixed 2-D curves near the origin; no relation between two runs is ever checked.",
 BZ+["src/bspline.rs","src/point_generic.rs"],[("per-axis arithmetic","all curve operations")],hook=F32)
p("C13","B-spline construction accepts exactly the valid definitions",
 "Constructing a B-spline of degree D from C control points and K knots succeeds if and only if C > D, K = C + D + 1 and the knots are non-decreasing (which a sequence containing NaN is not). Otherwise it reports, in this order of precedence, too few control points, too few knots, too many knots or decreasing knots; an accepted spline reports exactly the knots and control points it was given.",
 ["inputs","configurations"],"all combinations of counts and degrees, all knot vectors including equal, nearly equal, infinite and NaN knots and a decrease at any position",
 "All tests construct valid splines; not one of the constructor errors is exercised.",
 ["src/bspline.rs"],[("length checks and pairwise order check","BSpline::new"),("accessors","knots(), control_points()")],hook=F32)
p("C14","B-spline domain is exactly where evaluation succeeds",
 "For every accepted B-spline of degree D with C control points and finite knots, the reported domain runs from knot D to knot C (0-based), whether neither, one or both ends are clamped. Evaluation returns a finite point for every t in that closed interval, reports a domain violation for every t outside it (including infinities), returns an error for NaN, and never panics.",
 ["inputs"],"all degrees, counts, finite non-decreasing knot vectors (clamped, one-sided, unclamped, repeated interior knots, fully degenerate) and all scalar parameters",
 "Tests use uniform clamped or unclamped knots of fixed layouts; half-clamped vectors, repeated knots and NaN parameters are never used.",
 ["src/bspline.rs"],[("domain by knot kind","knot_domain*"),("range check then span search","BSpline::eval, knot_span_start_for_t*")],
 state=[("knot_kind","how the ends are clamped, selects domain and span search","BSpline")],hook=F32)
p("C15","B-spline evaluation equals the Cox-de Boor definition",
 "For every accepted B-spline in which no knot occurs more than D+1 times and every t in its domain, the evaluated point equals the sum of the control points weighted with the B-spline basis functions defined by the Cox-de Boor recursion over the given knots, up to rounding. At a knot the spans are taken half-open to the right, and at the domain end the limit from the left is taken.",
 ["inputs"],"all degrees 0.., counts, non-uniform knot vectors with repeated interior knots, any clamping, all t in the domain including knots and their floating-point neighbours, all dimensions",
 "Tests only require that eval does not fail inside the domain and check values at clamped ends plus one midpoint with a one-sided comparison, so wrong interior values pass.",
 ["src/bspline.rs"],[("span search","knot_span_start_for_t*"),("iterative de Boor triangle","de_boor_iterative")],hook=F32)
p("C16","B-splines interpolate clamped ends, stay local and stay in the hull",
 "For every accepted B-spline in which no knot occurs more than D+1 times: clamped at an end, it passes through the corresponding end control point. At every t of its domain the point lies in the coordinate range of the D+1 control points whose knot intervals contain t, moving a control point changes the curve only inside that point's support of D+1 knot spans, and equal control points give a constant curve; across a knot of multiplicity m <= D the curve is continuous.",
 ["inputs"],"all degrees, counts, knot vectors, control points and t in the domain",
 "Clamped ends are tested on four fixed curves; locality, hull and continuity are never examined.",
 ["src/bspline.rs"],[("selection of the D+1 active control points","de_boor_iterative"),("end special case","de_boor_iterative")],hook=F32)
p("C17","The B-spline derivative is the exact parametric derivative",
 "For every accepted B-spline of degree D >= 1 whose interior knots have multiplicity at most D, the derivative is a B-spline of degree D-1 with one control point less and a knot vector of matching length, defined over the same domain. Its value at every t of the domain equals the derivative of the original curve there (from the right at knots, from the left at the domain end), and deriving repeatedly yields the higher derivatives (as far as they are representable in the scalar type).",
 ["inputs"],"all degrees >= 1, counts, knot vectors with any clamping, all t in the domain, repeated derivation",
 "derivative() of a B-spline is never called by a test (the source itself says 'TODO test & verify').",
 ["src/bspline.rs"],[("scaled control point differences and trimmed knot vector","BSpline::derivative")],hook=F32)
p("C18","B-spline arc length is the flattening over the whole knot domain",
 "For every accepted B-spline with finite knots and every step count n >= 1, the arc length equals the total length of the n chords joining the points at n+1 evenly spaced parameters from the start to the end of the knot domain. It never depends on where the origin is, is at least the distance between the curve's ends and at most the length of the control polygon.",
 ["inputs"],"all splines (with any domain length and offset), all step counts",
 "arclen of a B-spline is never called by a test.",
 ["src/bspline.rs"],[("flattening loop over the mapped parameter","BSpline::arclen")],hook=F32)
p("C19","B-spline curves do not depend on the scale or offset of the knots",
 "Mapping all knots and the parameter by the same increasing affine map leaves every evaluated point and the arc length unchanged up to rounding and divides the derivative by the scale of the map; reversing control points and mirroring the knots mirrors the curve. Inserting the same shift into knots and parameter at any magnitude never changes which parameters are accepted.",
 ["inputs"],"all splines, all power-of-two scales (2^-10 to 2^20) and representable shifts",
 "All tests use knots starting at zero with unit spacing.",
 ["src/bspline.rs"],[("knot differences and ratios","de_boor_iterative, derivative, arclen")],hook=F32)
p("C20","Point arithmetic is component-wise in every dimension",
 "For the provided N-dimensional point, addition and subtraction of points or of a scalar, multiplication by a scalar, the default value, equality, iteration (by value and mutable, in index order), component access and squared length act component by component on all N components and on no others. Equality holds exactly when all components compare equal, and access beyond the last component panics instead of returning a value.",
 ["inputs","configurations"],"all dimensions 1.., all component values including negative zero, infinities and NaN, integer and float component types",
 "No test targets the point type; its operators are used with two or three components only.",
 ["src/point_generic.rs","src/point.rs"],[("operator impls over the component array","PointN")],hook=F32)
p("C21","Any conforming point type works and gives the same results",
 "Every curve operation works with any user type that implements the point trait, relies only on that trait's operations, reads only axes below the type's dimension, and returns for it the same results as for the provided point type with the same coordinates. This includes types whose scalar is a distinct type from the native float.",
 ["inputs","programs"],"all conforming point types (struct-like, array-like, distinct scalar newtype), all operations and inputs",
 "All tests use the provided point type with f64 components.",
 ["src/point.rs"]+BZ+["src/bspline.rs"],[("trait bound Point and its associated scalar","all generic impls")],observe=["calls of the Point and Float trait made by the library, recorded by an instrumented implementation","return values"],hook=F32)
p("C22","No operation allocates on the heap",
 "Constructing, copying, evaluating, splitting, deriving, measuring, bounding, querying or iterating any curve, spline or point performs no heap allocation, reallocation or deallocation, whatever the input.",
 ["inputs"],"all operations of all types, all inputs, degrees, dimensions and step counts, success and error paths",
 "Tests do not observe the allocator; an allocation changes no value they look at.",
 ["src/lib.rs"]+BZ+["src/bspline.rs"],[("fixed-size arrays and inline ArrayVec","whole crate, #![no_std] without alloc")],observe=["global allocator calls made during a library call"],hook=None)
p("C23","Every operation terminates without panic and with finite results",
 "For all finite control points of moderate magnitude, every parameter in the documented range, every step count n >= 1 and every finite accepted knot vector, each operation returns after a number of arithmetic steps bounded by a polynomial in the degree and the step count, without panic, arithmetic overflow or out-of-bounds access. The result contains no NaN or infinity (for derivatives of B-splines: whenever the control points of the derivative are representable).",
 ["inputs"],"all operations on degenerate, coincident, collinear, zero, subnormal, huge-ratio and signed-zero inputs (coordinates up to 1e100 in double precision, 1e12 in single)",
 "Tests use benign coordinates; degenerate geometry and repeated knots are never used.",
 ["src/lib.rs"]+BZ+["src/bspline.rs","src/roots.rs"],[("index arithmetic and root filtering","bounding_box, de_boor_iterative, knot_span_start_for_t*")],observe=["panics and overflow checks in an instrumented build","scalar operations counted by an instrumented scalar","return values"],hook=F32)
p("C24","Execution is free of undefined behaviour on 64- and 32-bit targets",
 "Running any operation of the library on any input, including erroneous indices and out-of-domain parameters, exhibits no undefined behaviour, invalid memory access or uninitialised read on 64-bit and on 32-bit targets; invalid requests end in an error value or a panic. On 32-bit targets the library works in single precision and returns the same curves as on 64-bit targets up to that precision.",
 ["inputs","configurations"],"all operations on a 64-bit and a 32-bit target, valid and invalid arguments",
 "Tests run natively on a 64-bit host only; the 32-bit configuration (other scalar type, other epsilon) is never compiled by them.",
 ["src/lib.rs"]+BZ+["src/bspline.rs","src/point_generic.rs"],[("forbid(unsafe_code)","src/lib.rs"),("scalar selection by pointer width","src/lib.rs")],observe=["Miri's undefined-behaviour monitor","AddressSanitizer (thorough)","return values on each target"],hook=None)
p("C25","Queries never change a curve; accessors and iterators mirror its points",
 "Every query leaves the curve or spline it is called on unchanged, gives the same answer when repeated in any order, interleaved with any other queries, and the same on a copy. The control points read back (by accessor or by value iteration) are those given at construction, in order; changing points through mutable iteration changes exactly those points and every later query answers for the changed curve.",
 ["histories","inputs"],"all sequences of queries, copies, mutations and re-reads on all curve types",
 "Tests call single methods on fresh values; no history of several operations is examined.",
 BZ+["src/bspline.rs","src/point_generic.rs"],[("&self receivers over owned arrays","all types"),("mutable iteration","IntoIterator for &mut Bezier, &mut PointN")],hook=F32)
p("C26","Threads can share curves; concurrent queries answer as sequential ones",
 "Curves, splines, points and error values are plain values: every type can be sent to and shared between threads, copied, and outlives no borrow. Any number of threads querying one shared curve or spline at the same time, each with its own sequence of queries, get exactly the answers (bit by bit) a single thread gets from an equal object, and there is no data race.",
 ["schedules","histories","inputs","programs"],"all interleavings of queries from several threads on one object, all curve types and B-splines, all query sequences",
 "The tests are single-threaded and ask each fresh value once; cached or global state would go unnoticed.",
 BZ+["src/bspline.rs","src/point_generic.rs"],[("&self queries over owned arrays, no interior or global state","all types")],observe=["answers per thread","data races seen by ThreadSanitizer and Miri","whether programs sharing the types build"],hook=F32)
p("C27","Curves are equal exactly when all their control points are",
 "Two line segments, quadratics, cubics or wrapped segments compare equal exactly when they are of the same kind and each pair of corresponding control points compares equal (in every component, by the component's own equality); inequality is the negation. A copy equals its source whenever no component is NaN, and wrapping or converting curves preserves this relation. Each B-spline error value equals only itself and has a non-empty message of its own.",
 ["inputs"],"all pairs of curves of each kind: equal, differing in one component of one control point by any amount, permuted or reversed, signed zeros, NaN and infinities; all pairs of kinds; all error values",
 "The tests compare a few numbers with a tolerance; equality between curves or errors is never examined except on one line of code.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs","src/point_generic.rs","src/bspline.rs"],[("PartialEq, Copy and Clone implementations","derives and impls on the curve types")],hook=F32)
p("C28","The library runs freestanding and within a bounded stack",
 "A program without the standard library and without an allocator can use every operation of the library and gets the same answers as a hosted one. The stack an operation needs depends on the types involved only (number of points, dimension, degree), never on coordinates, parameters, knot values or the number of steps asked for.",
 ["inputs","programs","configurations"],"all operations on all curve types and B-splines, step counts up to 100000, all coordinates and parameters; both scalar widths",
 "The test harness itself links std and gives each test 2 MiB of stack; neither a dependency on std nor recursion over data or steps changes any value it looks at.",
 ["src/lib.rs"]+BZ+["src/bspline.rs","src/roots.rs"],[("#![no_std], loops instead of recursion","whole crate")],observe=["build and output of a freestanding program","stack words written below each library call"],hook=F32)
p("C29","Answers do not depend on how the program is built",
 "For the same request, valid or invalid, every operation gives the same answer (bit by bit, apart from the payload of a NaN and the sign of a zero) or the same kind of refusal in every build of the library: with and without debug assertions and overflow checks, unoptimised or optimised for speed or size, with link-time optimisation or for a newer processor of the same architecture.",
 ["inputs","configurations"],"all operations of all types, valid and invalid arguments, all compiler profiles",
 "The tests run in one build profile and compare nothing between builds; work done inside debug assertions, branches on the profile and wrapping arithmetic show in none of them.",
 ["src/lib.rs"]+BZ+["src/bspline.rs","src/roots.rs"],[("no profile-dependent code, checked index arithmetic","whole crate")],observe=["digests of the answers per case and build"],hook=F32)
p("C30","Derived objects carry no hidden past",
 "Whatever an object was made from - by splitting, deriving, taking the baseline, copying, wrapping or changing points, in any chain and with any requests in between - it answers every later request as an object of its kind newly constructed from the control points and knots it reports, and as the mathematics of the whole chain prescribes (part, derivative or chord of the original curve, up to rounding). A derived B-spline keeps domain and refusals of the original.",
 ["histories","inputs"],"all chains of operations on all curve types and B-splines, all requests to every object met on the way",
 "Tests apply one operation to a fresh value and look at its points; no derived object is ever asked for anything else or derived again.",
 BZ+["src/bspline.rs"],[("objects built by struct literals inside split, derivative and baseline","all types"),("knot_kind handed on","BSpline::derivative")],hook=F32)
p("C31","Printed curves and errors are complete and honest",
 "The debug text, plain or pretty, of a point, a line segment, a quadratic, a cubic or a wrapped segment shows every coordinate of every control point, in their order and with digits enough to read back the same value (signed zeros, infinities and NaN included), and no other numbers. Every B-spline error prints a non-empty message that no other error prints, and names its kind for debugging. Printing the same value again prints the same text; it never panics, and reports failure exactly when the output device refuses a part, having written a beginning of the text.",
 ["inputs","fault_sequences"],"all points and curves of all dimensions and component types, all coordinates, all error values, output devices that fail at any byte",
 "No test prints anything; what is shown is only ever looked at by a person when something else is wrong.",
 ["src/point_generic.rs","src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs","src/bspline.rs"],[("Debug and Display implementations","derives on the point and curve types, impl Display for BSplineError")],observe=["text received by a device of limited capacity","reported success or failure"],hook=F32)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
