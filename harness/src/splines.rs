//! Run-time-dimensioned view of the library's B-splines. Every method is one observed library call.
use crate::curves::{fs, sc, HPoint};
use crate::mon::{lib_call, lib_try};
#[cfg(feature = "probe")]
use crate::probe::Probe;
use crate::{Co, F};
use stroke::bspline::BSplineError;
use stroke::{BSpline, PointN};

pub type DynS = Box<dyn DynSpline>;
pub trait DynSpline {
    fn degree(&self) -> usize;
    fn eval(&self, t: F) -> Result<Co, BSplineError>;
    fn try_eval(&self, t: F) -> Result<Result<Co, BSplineError>, String>;
    fn domain(&self) -> (F, F);
    fn knots(&self) -> Vec<F>;
    fn ctrl(&self) -> Vec<Co>;
    fn arclen(&self, n: usize) -> F;
    fn derivative(&self) -> Option<DynS>;
    fn copy(&self) -> DynS;
}
pub struct S<T>(pub T);

macro_rules! sderiv {
    ($s:ident, 0) => {
        None
    };
    ($s:ident, $D:tt) => {
        Some(Box::new(S(lib_call("BSpline::derivative", || $s.0.derivative()))))
    };
}
macro_rules! impl_spline {
    ($P:ty; $(($K:tt $C:tt $D:tt))+) => {$(
        impl DynSpline for S<BSpline<$P, $K, $C, $D>> {
            fn degree(&self) -> usize { $D }
            fn eval(&self, t: F) -> Result<Co, BSplineError> {
                lib_call("BSpline::eval", || self.0.eval(sc::<$P>(t))).map(|p| p.co())
            }
            fn try_eval(&self, t: F) -> Result<Result<Co, BSplineError>, String> {
                lib_try("BSpline::eval", || self.0.eval(sc::<$P>(t))).map(|r| r.map(|p| p.co()))
            }
            fn domain(&self) -> (F, F) {
                let (a, b) = lib_call("BSpline::knot_domain", || self.0.knot_domain());
                (fs::<$P>(a), fs::<$P>(b))
            }
            fn knots(&self) -> Vec<F> {
                let it = lib_call("BSpline::knots", || self.0.knots());
                it.map(|k| fs::<$P>(*k)).collect()
            }
            fn ctrl(&self) -> Vec<Co> {
                let it = lib_call("BSpline::control_points", || self.0.control_points());
                it.map(|p| p.co()).collect()
            }
            fn arclen(&self, n: usize) -> F {
                fs::<$P>(lib_call("BSpline::arclen", || self.0.arclen(n)))
            }
            fn derivative(&self) -> Option<DynS> {
                sderiv!(self, $D)
            }
            fn copy(&self) -> DynS {
                let c = lib_call("BSpline::clone", || self.0.clone());
                Box::new(S(c))
            }
        }
    )+
        impl NewSpline for $P {
            fn bspline(d: usize, knots: &[F], pts: &[Co]) -> Option<Result<DynS, BSplineError>> {
                match (knots.len(), pts.len(), d) {
                    $(($K, $C, $D) => {
                        let mut a = [<$P>::default(); $C];
                        for (x, y) in a.iter_mut().zip(pts) { *x = <$P>::mk(y); }
                        let mut k = [sc::<$P>(0.0); $K];
                        for (x, y) in k.iter_mut().zip(knots) { *x = sc::<$P>(*y); }
                        let r = lib_call("BSpline::new", || BSpline::<$P, $K, $C, $D>::new(k, a));
                        Some(r.map(|s| Box::new(S(s)) as DynS))
                    })+
                    _ => None,
                }
            }
        }
    };
}
pub trait NewSpline {
    fn bspline(d: usize, knots: &[F], pts: &[Co]) -> Option<Result<DynS, BSplineError>>;
}
include!("splines_list.rs");
