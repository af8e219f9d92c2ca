// Generated by tools/gen_splines.py: (knots, control points, degree) per point type.
impl_spline!(PointN<F, 1>; (2 1 0) (3 2 0) (4 3 0) (6 5 0) (10 9 0) (21 20 0) (34 33 0) (71 70 0) (261 260 0) (4 2 1) (5 3 1) (6 4 1) (8 6 1) (12 10 1) (23 21 1) (36 34 1) (73 71 1) (263 261 1) (6 3 2) (7 4 2) (8 5 2) (10 7 2) (14 11 2) (25 22 2) (38 35 2) (75 72 2) (265 262 2) (8 4 3) (9 5 3) (10 6 3) (12 8 3) (16 12 3) (27 23 3) (40 36 3) (77 73 3) (267 263 3) (10 5 4) (11 6 4) (12 7 4) (14 9 4) (18 13 4) (12 6 5) (13 7 5) (14 8 5) (16 10 5) (20 14 5) (14 7 6) (15 8 6) (16 8 7) (17 9 7) (18 9 8) (19 10 8) (20 10 9) (21 11 9) (22 11 10) (23 12 10) (24 12 11) (25 13 11) (26 13 12) (27 14 12) (28 14 13) (30 15 14) (32 16 15) (34 17 16));
impl_spline!(PointN<F, 2>; (2 1 0) (3 2 0) (4 3 0) (5 4 0) (7 6 0) (9 8 0) (15 14 0) (31 30 0) (4 2 1) (5 3 1) (6 4 1) (7 5 1) (9 7 1) (11 9 1) (17 15 1) (33 31 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (11 8 2) (13 10 2) (19 16 2) (35 32 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (13 9 3) (15 11 3) (21 17 3) (37 33 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (15 10 4) (17 12 4) (12 6 5) (13 7 5) (14 8 5) (15 9 5) (17 11 5) (19 13 5) (14 7 6) (15 8 6) (16 9 6) (17 10 6) (19 12 6) (21 14 6) (16 8 7) (17 9 7) (18 10 7) (19 11 7) (21 13 7) (23 15 7));
impl_spline!(PointN<F, 3>; (2 1 0) (3 2 0) (4 3 0) (5 4 0) (6 5 0) (4 2 1) (5 3 1) (6 4 1) (7 5 1) (8 6 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (10 7 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (12 8 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (14 9 4) (15 9 5) (17 10 6) (19 11 7) (21 12 8) (23 13 9));
impl_spline!(PointN<F, 5>; (2 1 0) (3 2 0) (4 2 1) (5 3 1) (6 3 2) (7 4 2) (8 4 3) (9 5 3));
impl_spline!(PointN<F, 10>; (4 3 0) (6 4 1) (8 5 2));
impl_spline!(PointN<F, 16>; (3 2 0) (5 3 1) (7 4 2) (9 5 3));
impl_spline!(PointN<F, 33>; (3 2 0) (5 3 1) (7 4 2));
#[cfg(feature = "probe")]
impl_spline!(Probe<1>; (2 1 0) (4 3 0) (4 2 1) (6 4 1) (6 3 2) (8 5 2));
#[cfg(feature = "probe")]
impl_spline!(Probe<2>; (2 1 0) (3 2 0) (4 3 0) (6 5 0) (41 40 0) (4 2 1) (5 3 1) (6 4 1) (8 6 1) (43 41 1) (6 3 2) (7 4 2) (8 5 2) (10 7 2) (45 42 2) (8 4 3) (9 5 3) (10 6 3) (12 8 3) (10 5 4) (11 6 4) (12 7 4) (14 9 4) (13 7 5) (15 8 6) (17 9 7) (19 10 8) (21 11 9) (23 12 10));
#[cfg(feature = "probe")]
impl_spline!(Probe<3>; (2 1 0) (4 3 0) (4 2 1) (6 4 1) (6 3 2) (8 5 2));
/// (dimension, largest degree, span counts) instantiated for the provided point type
pub const SPLINES: [(usize, usize, &[usize]); 13] = [(1, 5, &[1, 2, 3, 5, 9]), (2, 7, &[1, 2, 3, 4, 6, 8]), (3, 4, &[1, 2, 3, 5]), (5, 3, &[1, 2]), (1, 3, &[20, 33, 70]), (2, 3, &[14, 30]), (1, 12, &[2]), (3, 9, &[4]), (10, 2, &[3]), (1, 16, &[1]), (1, 3, &[260]), (16, 3, &[2]), (33, 2, &[2])];
/// the same for the instrumented point type
pub const PROBE_SPLINES: [(usize, usize, &[usize]); 5] = [(1, 2, &[1, 3]), (2, 4, &[1, 2, 3, 5]), (2, 10, &[2]), (3, 2, &[1, 3]), (2, 2, &[40])];
/// Build a spline of degree `d`; None when the combination is not instantiated.
pub fn spline(d: usize, knots: &[F], pts: &[Co]) -> Option<Result<DynS, BSplineError>> {
    match pts[0].len() {
        1 => PointN::<F, 1>::bspline(d, knots, pts),
        2 => PointN::<F, 2>::bspline(d, knots, pts),
        3 => PointN::<F, 3>::bspline(d, knots, pts),
        5 => PointN::<F, 5>::bspline(d, knots, pts),
        10 => PointN::<F, 10>::bspline(d, knots, pts),
        16 => PointN::<F, 16>::bspline(d, knots, pts),
        33 => PointN::<F, 33>::bspline(d, knots, pts),
        _ => None,
    }
}
/// Build a spline of degree `d`; None when the combination is not instantiated.
pub fn probe_spline(d: usize, knots: &[F], pts: &[Co]) -> Option<Result<DynS, BSplineError>> {
    match pts[0].len() {
        #[cfg(feature = "probe")]
        1 => Probe::<1>::bspline(d, knots, pts),
        #[cfg(feature = "probe")]
        2 => Probe::<2>::bspline(d, knots, pts),
        #[cfg(feature = "probe")]
        3 => Probe::<3>::bspline(d, knots, pts),
        _ => None,
    }
}
