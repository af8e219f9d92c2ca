//! Comparison helpers shared by the oracles.
use crate::mon::Case;
use crate::{Co, F, RT, TINY};

/// every coordinate of `got` finite and within `tol(axis)` of `want`
pub fn near(c: &mut Case, class: &str, got: &[F], want: &[f64], tol: impl Fn(usize) -> f64, ctx: impl Fn() -> String) -> bool {
    c.eval1();
    if got.len() != want.len() {
        c.fail(class, format!("{} coordinates instead of {}: {}", got.len(), want.len(), ctx()));
        return false;
    }
    for k in 0..got.len() {
        let g = got[k] as f64;
        let t = tol(k);
        // negated comparison: a NaN is never near
        if !((g - want[k]).abs() <= t) {
            c.fail(class, format!("axis {k}: got {:?}, expected {:e} within {:.1e}: {}", got[k], want[k], t, ctx()));
            return false;
        }
    }
    true
}
/// tolerance of an operation that is linear in coordinates of size `scale`
pub fn lin(scale: f64) -> f64 {
    RT * scale + TINY
}
pub fn near1(c: &mut Case, class: &str, got: F, want: f64, tol: f64, ctx: impl Fn() -> String) -> bool {
    c.eval1();
    if !((got as f64 - want).abs() <= tol) {
        c.fail(class, format!("got {:?}, expected {:e} within {:.1e}: {}", got, want, tol, ctx()));
        return false;
    }
    true
}
/// |a-b| within tolerance per axis, both from the library
pub fn same(c: &mut Case, class: &str, a: &Co, b: &Co, tol: impl Fn(usize) -> f64, ctx: impl Fn() -> String) -> bool {
    let w: Vec<f64> = b.iter().map(|x| *x as f64).collect();
    near(c, class, a, &w, tol, ctx)
}
