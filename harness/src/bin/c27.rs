//! C27: equality of curves and error values.
use harness::{curves::*, gen, hash_ps, mon::*, shows, splines, Co, F, IS32};
#[cfg(feature = "probe")]
use harness::probe::Probe;
use std::fmt::Write;
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError as E;
use stroke::{CubicBezier, LineSegment, PointN, QuadraticBezier};

struct Pair {
    op: &'static str,
    eq: bool,
    ne: bool,
    copy: bool,
}
macro_rules! pair {
    ($op:literal, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let k = a;
        #[allow(clippy::clone_on_copy)]
        let cl = lib_call($op, || a.clone());
        Pair { op: $op, eq: lib_call($op, || a == b), ne: lib_call($op, || a != b), copy: lib_call($op, || k == a && cl == a && !(k != a)) }
    }};
}
macro_rules! eqs {
    ($P:ty, $p:expr, $q:expr) => {{
        let (p, q): (Vec<$P>, Vec<$P>) = ($p.iter().map(|x| <$P>::mk(x)).collect(), $q.iter().map(|x| <$P>::mk(x)).collect());
        match p.len() {
            2 => {
                let (a, b) = (LineSegment::new(p[0], p[1]), LineSegment::new(q[0], q[1]));
                vec![pair!("LineSegment::eq", a, b), pair!("BezierSegment::eq", BezierSegment::from(a), BezierSegment::from(b))]
            }
            3 => {
                let (a, b) = (QuadraticBezier::new(p[0], p[1], p[2]), QuadraticBezier::new(q[0], q[1], q[2]));
                vec![pair!("QuadraticBezier::eq", a, b), pair!("BezierSegment::eq", BezierSegment::from(a), BezierSegment::from(b))]
            }
            _ => {
                let (a, b) = (CubicBezier::new(p[0], p[1], p[2], p[3]), CubicBezier::new(q[0], q[1], q[2], q[3]));
                vec![pair!("CubicBezier::eq", a, b), pair!("BezierSegment::eq", BezierSegment::from(a), BezierSegment::from(b))]
            }
        }
    }};
}
macro_rules! kinds {
    ($P:ty, $p:expr) => {{
        let p: Vec<$P> = $p.iter().map(|x| <$P>::mk(x)).collect();
        let l = BezierSegment::from(LineSegment::new(p[0], p[3]));
        let q = BezierSegment::from(QuadraticBezier::new(p[0], p[1], p[3]));
        let k = BezierSegment::from(CubicBezier::new(p[0], p[1], p[2], p[3]));
        lib_call("BezierSegment::eq", || l == q || q == l || l == k || k == l || q == k || k == q || !(l != q) || !(q != k) || !(l != k))
    }};
}
macro_rules! table {
    ($m:ident, $dim:expr, $($x:expr),+) => {
        match $dim {
            1 => $m!(PointN<F, 1>, $($x),+),
            2 => $m!(PointN<F, 2>, $($x),+),
            3 => $m!(PointN<F, 3>, $($x),+),
            4 => $m!(PointN<F, 4>, $($x),+),
            5 => $m!(PointN<F, 5>, $($x),+),
            8 => $m!(PointN<F, 8>, $($x),+),
            16 => $m!(PointN<F, 16>, $($x),+),
            #[cfg(feature = "probe")]
            102 => $m!(Probe<2>, $($x),+),
            #[cfg(feature = "probe")]
            105 => $m!(Probe<5>, $($x),+),
            _ => unreachable!(),
        }
    };
}
const ERRORS: [E; 6] = [E::TooFewControlPoints, E::TooFewKnots, E::TooManyKnots, E::DecreasingKnots, E::KnotDomainViolation, E::EvaluationAlphaIsNaN];

fn main() {
    let spec = Spec {
        prop: "C27",
        quick: 3_000_000,
        mult: 40,
        rule: "random control points of a segment, quadratic or cubic (also wrapped, and of a user's point type), compared with a copy changed in nothing, in one component of one point by one ulp or more, in the sign of a zero, by a NaN, by exchanging points, by reversal, or drawn anew; curves of different kinds; every pair of error values obtained from the library; distinct by points and change, all non-trivial",
        need: &[("change:none", 5000), ("change:ulp", 5000), ("change:value", 5000), ("change:zero-sign", 1000), ("change:nan", 1000), ("change:exchange", 5000), ("change:reverse", 5000), ("change:new", 5000), ("equal", 10000), ("unequal", 10000), ("point:first", 1000), ("point:last", 1000), ("point:inner", 1000), ("kinds", 5000), ("errors", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        if c.idx % 64 == 0 {
            errors(c);
            return;
        }
        let user = cfg!(feature = "probe") && c.rng.chance(0.15);
        let tag = if user { *c.rng.pick(&[102usize, 105]) } else { *c.rng.pick(&[1usize, 2, 2, 3, 3, 4, 5, 8, 16]) };
        let dim = tag % 100;
        let n = 2 + c.rng.below(3);
        let (p, class) = gen::points(&mut c.rng, dim, n, if IS32 { 20 } else { 100 });
        c.cover(class);
        let mut p = p;
        let mut q = p.clone();
        let (i, k) = (c.rng.below(n), c.rng.below(dim));
        let mut touched = true;
        let change = c.rng.below(8);
        let name = match change {
            0 => {
                touched = false;
                "change:none"
            }
            1 => {
                q[i][k] = if c.rng.chance(0.5) { q[i][k].next_up() } else { q[i][k].next_down() };
                "change:ulp"
            }
            2 => {
                q[i][k] += (c.rng.sym() * 10.0) as F;
                "change:value"
            }
            3 => {
                p[i][k] = 0.0;
                q[i][k] = -0.0;
                "change:zero-sign"
            }
            4 => {
                p[i][k] = F::NAN;
                q[i][k] = F::NAN;
                "change:nan"
            }
            5 => {
                touched = false;
                let j = (i + 1 + c.rng.below(n - 1)) % n;
                q.swap(i, j);
                "change:exchange"
            }
            6 => {
                touched = false;
                q.reverse();
                "change:reverse"
            }
            _ => {
                touched = false;
                q = gen::points(&mut c.rng, dim, n, 6).0;
                "change:new"
            }
        };
        c.cover(name);
        if touched {
            c.cover(if i == 0 { "point:first" } else if i == n - 1 { "point:last" } else { "point:inner" });
        }
        let same = |a: &[Co], b: &[Co]| a.iter().zip(b).all(|(x, y)| x.iter().zip(y).all(|(u, v)| u == v));
        let (want, own) = (same(&p, &q), same(&p, &p));
        c.cover(if want { "equal" } else { "unequal" });
        let res: Vec<Pair> = table!(eqs, tag, p, q);
        for r in res {
            let what = || format!("{name}: {} and {} in {dim} dimensions (user type: {user})", shows(&p), shows(&q));
            c.check(r.eq == want && r.ne != want, "equality", || format!("{} says {} (unequal: {}) instead of {want}: {}", r.op, r.eq, r.ne, what()));
            c.check(r.copy == own, "copy", || format!("{} says a copy equals its source: {}, instead of {own}: {}", r.op, r.copy, what()));
        }
        if n == 4 {
            c.cover("kinds");
            let mixed: bool = table!(kinds, tag, p);
            c.check(!mixed, "kind", || format!("curves of different kinds compare equal: {}", shows(&p)));
        }
        c.nontrivial(hash_ps(change as u64, &[p.clone(), q.clone()].concat()));
        if c.want_sample() {
            c.sample(format!("{name}: {} against {}", shows(&p), shows(&q)));
        }
    });
}
fn errors(c: &mut Case) {
    c.cover("errors");
    // errors as the library itself hands them out
    let p1: Vec<Co> = vec![vec![1.0], vec![2.0], vec![3.0]];
    let mut got: Vec<(E, E)> = ERRORS.iter().map(|e| (*e, *e)).collect();
    if let Some(Err(e)) = splines::spline(2, &[0.0, 0.0, 0.0, 1.0, -1.0, 1.0], &p1) {
        got.push((e, E::DecreasingKnots));
    }
    if let Some(Ok(s)) = splines::spline(2, &[0.0, 0.0, 0.0, 1.0, 1.0, 1.0], &p1) {
        if let Err(e) = s.eval(2.0) {
            got.push((e, E::KnotDomainViolation));
        }
    }
    let text = |e: &E| {
        let mut s = String::new();
        let r = lib_call("BSplineError::fmt", || write!(s, "{e}"));
        let mut d = String::new();
        let r2 = lib_call("BSplineError::fmt", || write!(d, "{e:?}"));
        (s, d, r.is_ok() && r2.is_ok())
    };
    for (a, sa) in &got {
        let (ta, da, ok) = text(a);
        c.check(ok && !ta.trim().is_empty() && !da.trim().is_empty(), "message", || format!("{sa:?} is displayed as {ta:?}"));
        for (b, sb) in &got {
            let same = sa == sb;
            let idx = |e: &E| *e as usize;
            c.check((idx(sa) == idx(sb)) == same, "error-equality", || format!("{sa:?} == {sb:?} is {same}"));
            let (eq, ne) = (lib_call("BSplineError::eq", || a == b), lib_call("BSplineError::eq", || a != b));
            c.check(eq == same && ne != same, "error-equality", || format!("{a:?} == {b:?} is {eq}"));
            let (tb, db, _) = text(b);
            c.check((ta == tb) == same && (da == db) == same, "message", || format!("{a:?} and {b:?} are displayed as {ta:?} and {tb:?}"));
        }
    }
}
