use crate::*;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub static ID: AtomicUsize = AtomicUsize::new(0);
pub static HITS: AtomicUsize = AtomicUsize::new(0);
pub const CONDS: &[&str] = &NAMES;
#[inline]
pub fn on(f: usize) -> bool {
    ID.load(Relaxed) / 1000 == f
}
pub trait Fix: Sized {
    fn fix(self) -> Self;
}
impl<P: Point> Fix for LineSegment<P> {
    fn fix(self) -> Self {
        LineSegment::new(self.start, self.end * (1.0 + fac()))
    }
}
impl<P: Point> Fix for QuadraticBezier<P> {
    fn fix(self) -> Self {
        let [a, b, c] = self.control_points();
        QuadraticBezier::new(a, b * (1.0 + fac()), c)
    }
}
impl<P: Point> Fix for CubicBezier<P> {
    fn fix(self) -> Self {
        let [a, b, c, d] = self.control_points();
        CubicBezier::new(a, b, c * (1.0 + fac()), d)
    }
}
impl<P: Point, const N: usize> Fix for Bezier<P, N> {
    fn fix(mut self) -> Self {
        self.control_points[N / 2] = self.control_points[N / 2] * (1.0 + fac());
        self
    }
}
impl<P: Point, const K: usize, const C: usize, const D: usize> Fix for BSpline<P, K, C, D> {
    fn fix(mut self) -> Self {
        self.control_points[C / 2] = self.control_points[C / 2] * (1.0 + fac());
        self
    }
}
impl<P: Point> Fix for bezier_segment::BezierSegment<P> {
    fn fix(self) -> Self {
        use bezier_segment::BezierSegment::*;
        match self {
            Linear(x) => Linear(x.fix()),
            Quadratic(x) => Quadratic(x.fix()),
            Cubic(x) => Cubic(x.fix()),
        }
    }
}
impl<A, B: Fix> Fix for (A, B) {
    fn fix(self) -> Self {
        (self.0, self.1.fix())
    }
}
pub fn cond<P: Point>(pts: &[P], t: Option<P::Scalar>, steps: usize, q: Option<P>, tol: Option<P::Scalar>, knots: &[P::Scalar], d: usize, axis: usize) -> bool {
    let f = |v: P::Scalar| -> f64 {
        let v: NativeFloat = v.into();
        v as f64
    };
    let x = |i: usize, k: usize| -> f64 { f(pts[i].axis(k)) };
    let n = pts.len();
    let dim = P::DIM;
    let tv = t.map(f);
    let tt = |g: &dyn Fn(f64) -> bool| tv.map_or(false, |t| g(t));
    let all = |g: &dyn Fn(f64) -> bool| (0..n).all(|i| (0..dim).all(|k| g(x(i, k))));
    let any = |g: &dyn Fn(f64) -> bool| (0..n).any(|i| (0..dim).any(|k| g(x(i, k))));
    let mx = || (0..n).flat_map(|i| (0..dim).map(move |k| (i, k))).fold(0.0f64, |a, (i, k)| a.max(x(i, k).abs()));
    let mn = || (0..n).flat_map(|i| (0..dim).map(move |k| (i, k))).fold(f64::MAX, |a, (i, k)| if x(i, k) != 0.0 { a.min(x(i, k).abs()) } else { a });
    let eq = |i: usize, j: usize| (0..dim).all(|k| x(i, k) == x(j, k));
    let d2 = |i: usize, j: usize| (0..dim).map(|k| (x(i, k) - x(j, k)) * (x(i, k) - x(j, k))).fold(0.0, |a, b| a + b);
    let ext = |k: usize| {
        let (a, b) = (0..n).fold((f64::MAX, f64::MIN), |(a, b), i| (a.min(x(i, k)), b.max(x(i, k))));
        (a, b)
    };
    let kn = knots.len();
    let kf = |i: usize| f(knots[i]);
    let c = n;
    let dom = || (kf(d), kf(c));
    let mult = |i: usize| (0..kn).filter(|j| kf(*j) == kf(i)).count();
    let spans = || (d..c).map(|i| kf(i + 1) - kf(i)).filter(|s| *s > 0.0);
    let minspan = || spans().fold(f64::MAX, f64::min);
    let maxspan = || spans().fold(0.0, f64::max);
    let qd = |i: usize| q.map_or(f64::MAX, |q| (0..dim).map(|k| (f(q.axis(k)) - x(i, k)) * (f(q.axis(k)) - x(i, k))).fold(0.0, |a, b| a + b));
    let b = kn > 0;
    let r = match ID.load(Relaxed) % 1000 {
@@
        _ => false,
    };
    if r {
        HITS.fetch_add(1, Relaxed);
    }
    r
}
pub static FAC: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);
/// relative size of the change
#[inline]
pub fn fac() -> NativeFloat {
    f64::from_bits(FAC.load(Relaxed)) as NativeFloat
}
