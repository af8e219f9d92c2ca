//! Run-time-dimensioned view of the library's curve types. Every method is one observed library call.
use crate::mon::{lib_call, lib_try};
#[cfg(feature = "probe")]
use crate::probe::Probe;
use crate::{Co, F};
use stroke::bezier_segment::BezierSegment;
use stroke::{Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

/// Harness-side construction and reading of points, independent of the library's `axis`.
pub trait HPoint: Point {
    fn mk(c: &[F]) -> Self;
    fn co(&self) -> Co;
}
#[inline]
pub fn sc<P: Point>(x: F) -> P::Scalar {
    <P::Scalar as From<F>>::from(x)
}
#[inline]
pub fn fs<P: Point>(x: P::Scalar) -> F {
    x.into()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Line,
    Quad,
    Cubic,
    Bez,
    SegLine,
    SegQuad,
    SegCubic,
}

pub type Dyn = Box<dyn DynCurve>;
pub trait DynCurve {
    fn kind(&self) -> Kind;
    fn dim(&self) -> usize;
    /// number of control points
    fn n(&self) -> usize;
    /// control points as the library reports them (accessor or, where there is none, harness-side copy)
    fn ctrl(&self) -> Option<Vec<Co>>;
    fn eval(&self, t: F) -> Co;
    /// every evaluation path of this type
    fn evals(&self, t: F) -> Vec<(&'static str, Co)>;
    fn split(&self, t: F) -> (Dyn, Dyn);
    fn derivative(&self) -> Option<Dyn>;
    fn axis(&self, _t: F, _k: usize) -> Option<F> {
        None
    }
    fn dd(&self, _t: F, _k: usize) -> Option<F> {
        None
    }
    fn bbox(&self) -> Option<Vec<(F, F)>> {
        None
    }
    fn arclen(&self, _n: usize) -> Option<F> {
        None
    }
    fn distance(&self, _q: &[F]) -> Option<F> {
        None
    }
    fn is_linear(&self, _tol: F) -> Option<bool> {
        None
    }
    fn is_a_point(&self, _tol: F) -> Option<bool> {
        None
    }
    fn baseline(&self) -> Option<Dyn> {
        None
    }
    fn start_end(&self) -> Option<(Co, Co)> {
        None
    }
    fn copy(&self) -> Dyn;
    /// iterate by value
    fn into_points(&self) -> Option<Vec<Co>> {
        None
    }
    /// add `v` to point `i` through the mutable iterator
    fn mutate(&mut self, _i: usize, _v: &[F]) -> bool {
        false
    }
    /// axis sampler with an index out of range: Err(panic) or Ok(value)
    fn axis_raw(&self, _t: F, _k: usize) -> Option<Result<F, String>> {
        None
    }
    fn segment(&self) -> Option<Dyn> {
        None
    }
}
/// derivative of a line: a constant vector
pub struct ConstVec(pub Co);
impl DynCurve for ConstVec {
    fn kind(&self) -> Kind {
        Kind::Line
    }
    fn dim(&self) -> usize {
        self.0.len()
    }
    fn n(&self) -> usize {
        1
    }
    fn ctrl(&self) -> Option<Vec<Co>> {
        Some(vec![self.0.clone()])
    }
    fn eval(&self, _t: F) -> Co {
        self.0.clone()
    }
    fn evals(&self, _t: F) -> Vec<(&'static str, Co)> {
        vec![("constant", self.0.clone())]
    }
    fn split(&self, _t: F) -> (Dyn, Dyn) {
        unreachable!()
    }
    fn derivative(&self) -> Option<Dyn> {
        None
    }
    fn copy(&self) -> Dyn {
        Box::new(ConstVec(self.0.clone()))
    }
}
pub struct W<T>(pub T);

fn bb<P: Point, const D: usize>(b: [(P::Scalar, P::Scalar); D]) -> Vec<(F, F)> {
    b.iter().map(|(a, b)| (fs::<P>(*a), fs::<P>(*b))).collect()
}

macro_rules! impl_fixed {
    ($P:ty) => {
        impl DynCurve for W<LineSegment<$P>> {
            fn kind(&self) -> Kind {
                Kind::Line
            }
            fn dim(&self) -> usize {
                <$P as Point>::DIM
            }
            fn n(&self) -> usize {
                2
            }
            fn ctrl(&self) -> Option<Vec<Co>> {
                None
            }
            fn eval(&self, t: F) -> Co {
                lib_call("LineSegment::eval", || self.0.eval(sc::<$P>(t))).co()
            }
            fn evals(&self, t: F) -> Vec<(&'static str, Co)> {
                vec![("LineSegment::eval", self.eval(t))]
            }
            fn split(&self, t: F) -> (Dyn, Dyn) {
                let (a, b) = lib_call("LineSegment::split", || self.0.split(sc::<$P>(t)));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Dyn> {
                Some(Box::new(ConstVec(lib_call("LineSegment::derivative", || self.0.derivative()).co())))
            }
            fn axis(&self, t: F, k: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("LineSegment::axis", || self.0.axis(sc::<$P>(t), k))))
            }
            fn bbox(&self) -> Option<Vec<(F, F)>> {
                Some(bb::<$P, { <$P as Point>::DIM }>(lib_call("LineSegment::bounding_box", || self.0.bounding_box())))
            }
            fn distance(&self, q: &[F]) -> Option<F> {
                let q = <$P>::mk(q);
                Some(fs::<$P>(lib_call("LineSegment::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn copy(&self) -> Dyn {
                let c = lib_call("LineSegment::copy", || self.0.clone());
                Box::new(W(c))
            }
            fn axis_raw(&self, t: F, k: usize) -> Option<Result<F, String>> {
                Some(lib_try("LineSegment::axis", || fs::<$P>(self.0.axis(sc::<$P>(t), k))))
            }
            fn segment(&self) -> Option<Dyn> {
                let s: BezierSegment<$P> = lib_call("BezierSegment::from", || BezierSegment::from(self.0));
                Some(Box::new(W(s)))
            }
        }
        impl DynCurve for W<QuadraticBezier<$P>> {
            fn kind(&self) -> Kind {
                Kind::Quad
            }
            fn dim(&self) -> usize {
                <$P as Point>::DIM
            }
            fn n(&self) -> usize {
                3
            }
            fn ctrl(&self) -> Option<Vec<Co>> {
                let c = lib_call("QuadraticBezier::control_points", || self.0.control_points());
                Some(c.iter().map(|p| p.co()).collect())
            }
            fn eval(&self, t: F) -> Co {
                lib_call("QuadraticBezier::eval", || self.0.eval(sc::<$P>(t))).co()
            }
            fn evals(&self, t: F) -> Vec<(&'static str, Co)> {
                vec![
                    ("QuadraticBezier::eval", self.eval(t)),
                    ("QuadraticBezier::eval_casteljau", lib_call("QuadraticBezier::eval_casteljau", || self.0.eval_casteljau(sc::<$P>(t))).co()),
                ]
            }
            fn split(&self, t: F) -> (Dyn, Dyn) {
                let (a, b) = lib_call("QuadraticBezier::split", || self.0.split(sc::<$P>(t)));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Dyn> {
                Some(Box::new(W(lib_call("QuadraticBezier::derivative", || self.0.derivative()))))
            }
            fn axis(&self, t: F, k: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("QuadraticBezier::axis", || self.0.axis(sc::<$P>(t), k))))
            }
            fn dd(&self, t: F, k: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("QuadraticBezier::dd", || self.0.dd(sc::<$P>(t), k))))
            }
            fn bbox(&self) -> Option<Vec<(F, F)>> {
                Some(bb::<$P, { <$P as Point>::DIM }>(lib_call("QuadraticBezier::bounding_box", || self.0.bounding_box())))
            }
            fn arclen(&self, n: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("QuadraticBezier::arclen", || self.0.arclen(n))))
            }
            fn distance(&self, q: &[F]) -> Option<F> {
                let q = <$P>::mk(q);
                Some(fs::<$P>(lib_call("QuadraticBezier::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn is_linear(&self, tol: F) -> Option<bool> {
                Some(lib_call("QuadraticBezier::is_linear", || self.0.is_linear(sc::<$P>(tol))))
            }
            fn is_a_point(&self, tol: F) -> Option<bool> {
                Some(lib_call("QuadraticBezier::is_a_point", || self.0.is_a_point(sc::<$P>(tol))))
            }
            fn baseline(&self) -> Option<Dyn> {
                Some(Box::new(W(lib_call("QuadraticBezier::baseline", || self.0.baseline()))))
            }
            fn copy(&self) -> Dyn {
                let c = lib_call("QuadraticBezier::copy", || self.0.clone());
                Box::new(W(c))
            }
            fn axis_raw(&self, t: F, k: usize) -> Option<Result<F, String>> {
                Some(lib_try("QuadraticBezier::axis", || fs::<$P>(self.0.axis(sc::<$P>(t), k))))
            }
            fn segment(&self) -> Option<Dyn> {
                let s: BezierSegment<$P> = lib_call("BezierSegment::from", || BezierSegment::from(self.0));
                Some(Box::new(W(s)))
            }
        }
        impl DynCurve for W<CubicBezier<$P>> {
            fn kind(&self) -> Kind {
                Kind::Cubic
            }
            fn dim(&self) -> usize {
                <$P as Point>::DIM
            }
            fn n(&self) -> usize {
                4
            }
            fn ctrl(&self) -> Option<Vec<Co>> {
                let c = lib_call("CubicBezier::control_points", || self.0.control_points());
                Some(c.iter().map(|p| p.co()).collect())
            }
            fn eval(&self, t: F) -> Co {
                lib_call("CubicBezier::eval", || self.0.eval(sc::<$P>(t))).co()
            }
            fn evals(&self, t: F) -> Vec<(&'static str, Co)> {
                vec![
                    ("CubicBezier::eval", self.eval(t)),
                    ("CubicBezier::eval_casteljau", lib_call("CubicBezier::eval_casteljau", || self.0.eval_casteljau(sc::<$P>(t))).co()),
                ]
            }
            fn split(&self, t: F) -> (Dyn, Dyn) {
                let (a, b) = lib_call("CubicBezier::split", || self.0.split(sc::<$P>(t)));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Dyn> {
                Some(Box::new(W(lib_call("CubicBezier::derivative", || self.0.derivative()))))
            }
            fn axis(&self, t: F, k: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("CubicBezier::axis", || self.0.axis(sc::<$P>(t), k))))
            }
            fn dd(&self, t: F, k: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("CubicBezier::dd", || self.0.dd(sc::<$P>(t), k))))
            }
            fn bbox(&self) -> Option<Vec<(F, F)>> {
                Some(bb::<$P, { <$P as Point>::DIM }>(lib_call("CubicBezier::bounding_box", || self.0.bounding_box())))
            }
            fn arclen(&self, n: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("CubicBezier::arclen", || self.0.arclen(n))))
            }
            fn distance(&self, q: &[F]) -> Option<F> {
                let q = <$P>::mk(q);
                Some(fs::<$P>(lib_call("CubicBezier::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn is_linear(&self, tol: F) -> Option<bool> {
                Some(lib_call("CubicBezier::is_linear", || self.0.is_linear(sc::<$P>(tol))))
            }
            fn is_a_point(&self, tol: F) -> Option<bool> {
                Some(lib_call("CubicBezier::is_a_point", || self.0.is_a_point(sc::<$P>(tol))))
            }
            fn baseline(&self) -> Option<Dyn> {
                Some(Box::new(W(lib_call("CubicBezier::baseline", || self.0.baseline()))))
            }
            fn copy(&self) -> Dyn {
                let c = lib_call("CubicBezier::copy", || self.0.clone());
                Box::new(W(c))
            }
            fn axis_raw(&self, t: F, k: usize) -> Option<Result<F, String>> {
                Some(lib_try("CubicBezier::axis", || fs::<$P>(self.0.axis(sc::<$P>(t), k))))
            }
            fn segment(&self) -> Option<Dyn> {
                let s: BezierSegment<$P> = lib_call("BezierSegment::from", || BezierSegment::from(self.0));
                Some(Box::new(W(s)))
            }
        }
        impl DynCurve for W<BezierSegment<$P>> {
            fn kind(&self) -> Kind {
                match self.0 {
                    BezierSegment::Linear(_) => Kind::SegLine,
                    BezierSegment::Quadratic(_) => Kind::SegQuad,
                    BezierSegment::Cubic(_) => Kind::SegCubic,
                }
            }
            fn dim(&self) -> usize {
                <$P as Point>::DIM
            }
            fn n(&self) -> usize {
                match self.0 {
                    BezierSegment::Linear(_) => 2,
                    BezierSegment::Quadratic(_) => 3,
                    BezierSegment::Cubic(_) => 4,
                }
            }
            fn ctrl(&self) -> Option<Vec<Co>> {
                match &self.0 {
                    BezierSegment::Linear(_) => None,
                    BezierSegment::Quadratic(q) => Some(q.control_points().iter().map(|p| p.co()).collect()),
                    BezierSegment::Cubic(q) => Some(q.control_points().iter().map(|p| p.co()).collect()),
                }
            }
            fn eval(&self, t: F) -> Co {
                lib_call("BezierSegment::eval", || self.0.eval::<F>(sc::<$P>(t))).co()
            }
            fn evals(&self, t: F) -> Vec<(&'static str, Co)> {
                vec![("BezierSegment::eval", self.eval(t))]
            }
            fn split(&self, t: F) -> (Dyn, Dyn) {
                let (a, b) = lib_call("BezierSegment::split", || self.0.split(sc::<$P>(t)));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Dyn> {
                None
            }
            fn is_linear(&self, tol: F) -> Option<bool> {
                Some(lib_call("BezierSegment::is_linear", || self.0.is_linear(sc::<$P>(tol))))
            }
            fn baseline(&self) -> Option<Dyn> {
                Some(Box::new(W(lib_call("BezierSegment::baseline", || self.0.baseline()))))
            }
            fn start_end(&self) -> Option<(Co, Co)> {
                let s = lib_call("BezierSegment::start", || self.0.start());
                let e = lib_call("BezierSegment::end", || self.0.end());
                Some((s.co(), e.co()))
            }
            fn copy(&self) -> Dyn {
                let c = lib_call("BezierSegment::copy", || self.0.clone());
                Box::new(W(c))
            }
        }
        impl Fixed for $P {
            fn line(p: &[Co]) -> Dyn {
                let (a, b) = (<$P>::mk(&p[0]), <$P>::mk(&p[1]));
                let c = lib_call("LineSegment::new", || LineSegment::new(a, b));
                Box::new(W(c))
            }
            fn quad(p: &[Co]) -> Dyn {
                let (a, b, e) = (<$P>::mk(&p[0]), <$P>::mk(&p[1]), <$P>::mk(&p[2]));
                let c = lib_call("QuadraticBezier::new", || QuadraticBezier::new(a, b, e));
                Box::new(W(c))
            }
            fn cubic(p: &[Co]) -> Dyn {
                let (a, b, e, f) = (<$P>::mk(&p[0]), <$P>::mk(&p[1]), <$P>::mk(&p[2]), <$P>::mk(&p[3]));
                let c = lib_call("CubicBezier::new", || CubicBezier::new(a, b, e, f));
                Box::new(W(c))
            }
        }
    };
}
pub trait Fixed {
    fn line(p: &[Co]) -> Dyn;
    fn quad(p: &[Co]) -> Dyn;
    fn cubic(p: &[Co]) -> Dyn;
}

macro_rules! deriv {
    ($s:ident, 1) => {
        None
    };
    // the curve of one point less is not instantiated in the harness
    ($s:ident, 33) => {
        None
    };
    ($s:ident, 70) => {
        None
    };
    ($s:ident, 258) => {
        None
    };
    ($s:ident, $N:tt) => {
        Some(Box::new(W(lib_call("Bezier::derivative", || $s.0.derivative()))))
    };
}
macro_rules! impl_bez {
    ($P:ty, $($N:tt)+) => {$(
        impl DynCurve for W<Bezier<$P, $N>> {
            fn kind(&self) -> Kind {
                Kind::Bez
            }
            fn dim(&self) -> usize {
                <$P as Point>::DIM
            }
            fn n(&self) -> usize {
                $N
            }
            fn ctrl(&self) -> Option<Vec<Co>> {
                let c = lib_call("Bezier::control_points", || self.0.control_points());
                Some(c.iter().map(|p| p.co()).collect())
            }
            fn eval(&self, t: F) -> Co {
                lib_call("Bezier::eval", || self.0.eval(sc::<$P>(t))).co()
            }
            fn evals(&self, t: F) -> Vec<(&'static str, Co)> {
                vec![
                    ("Bezier::eval", self.eval(t)),
                    ("Spline::eval", lib_call("Spline::eval", || <Bezier<$P, $N> as Spline<$P>>::eval(&self.0, sc::<$P>(t))).co()),
                ]
            }
            fn split(&self, t: F) -> (Dyn, Dyn) {
                let (a, b) = lib_call("Bezier::split", || self.0.split(sc::<$P>(t)));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Dyn> {
                deriv!(self, $N)
            }
            fn arclen(&self, n: usize) -> Option<F> {
                Some(fs::<$P>(lib_call("Bezier::arclen", || self.0.arclen(n))))
            }
            fn distance(&self, q: &[F]) -> Option<F> {
                let q = <$P>::mk(q);
                Some(fs::<$P>(lib_call("Bezier::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn copy(&self) -> Dyn {
                let c = lib_call("Bezier::copy", || self.0.clone());
                Box::new(W(c))
            }
            fn into_points(&self) -> Option<Vec<Co>> {
                let c = self.0;
                let mut out: [Option<$P>; $N + 1] = [None; $N + 1];
                let mut n = 0;
                lib_call("Bezier::into_iter", || {
                    for p in c.into_iter() {
                        if n <= $N { out[n] = Some(p); }
                        n += 1;
                    }
                });
                assert!(n <= $N + 1, "iterator yields too many points");
                Some(out[..n].iter().map(|p| p.unwrap().co()).collect())
            }
            fn mutate(&mut self, i: usize, v: &[F]) -> bool {
                let q = <$P>::mk(v);
                let c = &mut self.0;
                lib_call("Bezier::iter_mut", || {
                    for (k, p) in c.into_iter().enumerate() {
                        if k == i { *p = q; }
                    }
                });
                true
            }
        }
    )+
        impl BezN for $P {
            fn bez(p: &[Co]) -> Option<Dyn> {
                match p.len() {
                    $($N => {
                        let mut a = [<$P>::default(); $N];
                        for (x, y) in a.iter_mut().zip(p) { *x = <$P>::mk(y); }
                        let c = lib_call("Bezier::new", || Bezier::new(a));
                        Some(Box::new(W(c)))
                    })+
                    _ => None,
                }
            }
        }
    };
}
pub trait BezN {
    fn bez(p: &[Co]) -> Option<Dyn>;
}

/// dimensions the harness instantiates, and the numbers of control points of the general curve in each
pub const DIMS: [usize; 12] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33];
pub fn sizes(dim: usize) -> &'static [usize] {
    match dim {
        // binomials of degree 70 times large coordinates leave the range of f32
        1 if crate::IS32 => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 33, 34],
        1 => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 33, 34, 70, 71, 258, 259],
        2 => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 33, 34],
        3 => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
        9 | 12 => &[1, 2, 3, 4],
        16 | 33 => &[1, 2, 3],
        _ => &[1, 2, 3, 4, 5],
    }
}

macro_rules! hpoint {
    ($D:tt) => {
        impl HPoint for PointN<F, $D> {
            fn mk(c: &[F]) -> Self {
                let mut a = [0.0; $D];
                a.copy_from_slice(c);
                PointN::new(a)
            }
            fn co(&self) -> Co {
                IntoIterator::into_iter(*self).collect()
            }
        }
    };
}
macro_rules! dims {
    ($($D:tt)+) => {$(
        hpoint!($D);
        impl_fixed!(PointN<F, $D>);
    )+};
}
dims!(1 2 3 4 5 6 7 8 9 12 16 33);
hpoint!(10);
impl_bez!(PointN<F, 1>, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 33 34 70 71 258 259);
impl_bez!(PointN<F, 2>, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 33 34);
impl_bez!(PointN<F, 3>, 1 2 3 4 5 6 7 8 9 10);
impl_bez!(PointN<F, 4>, 1 2 3 4 5);
impl_bez!(PointN<F, 5>, 1 2 3 4 5);
impl_bez!(PointN<F, 6>, 1 2 3 4 5);
impl_bez!(PointN<F, 7>, 1 2 3 4 5);
impl_bez!(PointN<F, 8>, 1 2 3 4 5);
impl_bez!(PointN<F, 9>, 1 2 3 4);
impl_bez!(PointN<F, 12>, 1 2 3 4);
impl_bez!(PointN<F, 16>, 1 2 3);
impl_bez!(PointN<F, 33>, 1 2 3);
// the instrumented user-side point type
#[cfg(feature = "probe")]
impl_fixed!(Probe<2>);
#[cfg(feature = "probe")]
impl_fixed!(Probe<3>);
#[cfg(feature = "probe")]
impl_fixed!(Probe<5>);
#[cfg(feature = "probe")]
impl_fixed!(Probe<1>);
#[cfg(feature = "probe")]
impl_bez!(Probe<1>, 1 2 3 4 5);
#[cfg(feature = "probe")]
impl_fixed!(Probe<9>);
#[cfg(feature = "probe")]
impl_bez!(Probe<9>, 1 2 3 4);
#[cfg(feature = "probe")]
impl_bez!(Probe<2>, 1 2 3 4 5 6 7 8 9 10 11 12 33);
#[cfg(feature = "probe")]
impl_bez!(Probe<3>, 1 2 3 4 5);
#[cfg(feature = "probe")]
impl_bez!(Probe<5>, 1 2 3 4 5);

macro_rules! by_dim {
    ($dim:expr, $f:ident, $p:expr) => {
        match $dim {
            1 => PointN::<F, 1>::$f($p),
            2 => PointN::<F, 2>::$f($p),
            3 => PointN::<F, 3>::$f($p),
            4 => PointN::<F, 4>::$f($p),
            5 => PointN::<F, 5>::$f($p),
            6 => PointN::<F, 6>::$f($p),
            7 => PointN::<F, 7>::$f($p),
            8 => PointN::<F, 8>::$f($p),
            9 => PointN::<F, 9>::$f($p),
            12 => PointN::<F, 12>::$f($p),
            16 => PointN::<F, 16>::$f($p),
            33 => PointN::<F, 33>::$f($p),
            d => panic!("dimension {d}"),
        }
    };
}
pub fn line(p: &[Co]) -> Dyn {
    by_dim!(p[0].len(), line, p)
}
pub fn quad(p: &[Co]) -> Dyn {
    by_dim!(p[0].len(), quad, p)
}
pub fn cubic(p: &[Co]) -> Dyn {
    by_dim!(p[0].len(), cubic, p)
}
pub fn bez(p: &[Co]) -> Dyn {
    by_dim!(p[0].len(), bez, p).expect("point count")
}
/// whether a general curve with `n` points in `dim` dimensions is instantiated
pub fn has_bez(dim: usize, n: usize) -> bool {
    DIMS.contains(&dim) && sizes(dim).contains(&n)
}
pub fn make(kind: Kind, p: &[Co]) -> Dyn {
    match kind {
        Kind::Line => line(p),
        Kind::Quad => quad(p),
        Kind::Cubic => cubic(p),
        Kind::Bez => bez(p),
        Kind::SegLine => line(p).segment().unwrap(),
        Kind::SegQuad => quad(p).segment().unwrap(),
        Kind::SegCubic => cubic(p).segment().unwrap(),
    }
}
/// numbers of points a probe curve is instantiated with, per dimension
pub const PROBE_N: [(usize, &[usize]); 5] = [(1, &[1, 2, 3, 4, 5]), (9, &[1, 2, 3, 4]), (2, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 33]), (3, &[1, 2, 3, 4, 5]), (5, &[1, 2, 3, 4, 5])];
#[cfg(not(feature = "probe"))]
pub fn make_probe(_kind: Kind, _p: &[Co]) -> Option<Dyn> {
    None
}
#[cfg(feature = "probe")]
pub fn make_probe(kind: Kind, p: &[Co]) -> Option<Dyn> {
    macro_rules! pd {
        ($f:ident) => {
            match p[0].len() {
                1 => Probe::<1>::$f(p),
                9 => Probe::<9>::$f(p),
                2 => Probe::<2>::$f(p),
                3 => Probe::<3>::$f(p),
                5 => Probe::<5>::$f(p),
                _ => return None,
            }
        };
    }
    Some(match kind {
        Kind::Line => pd!(line),
        Kind::Quad => pd!(quad),
        Kind::Cubic => pd!(cubic),
        Kind::Bez => return pd!(bez),
        Kind::SegLine => pd!(line).segment()?,
        Kind::SegQuad => pd!(quad).segment()?,
        Kind::SegCubic => pd!(cubic).segment()?,
    })
}
/// all kinds that `n` points can be used with
pub fn kinds_for(dim: usize, n: usize) -> Vec<Kind> {
    let mut v = Vec::new();
    if has_bez(dim, n) {
        v.push(Kind::Bez);
    }
    match n {
        2 => v.extend([Kind::Line, Kind::SegLine]),
        3 => v.extend([Kind::Quad, Kind::SegQuad]),
        4 => v.extend([Kind::Cubic, Kind::SegCubic]),
        _ => {}
    }
    v
}
