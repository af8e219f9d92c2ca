//! C31: what is printed about points, curves and errors.
use harness::{gen, hash_ps, mon::*, rng::Rng, shows, Co, F, IS32};
use std::fmt::{self, Debug, Display, Write};
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError as E;
use stroke::{CubicBezier, LineSegment, PointN, QuadraticBezier};

/// a device of limited capacity: refuses what does not fit and everything after it
struct Device {
    text: String,
    room: usize,
    full: bool,
}
impl Write for Device {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.full || s.len() > self.room {
            self.full = true;
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
/// the numbers of a text, in order
fn numbers(s: &str) -> Vec<F> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || "+-._".contains(c))).filter_map(|w| w.parse::<F>().ok()).collect()
}
fn same_bits(a: F, b: F) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn print<X: ?Sized>(c: &mut Case, op: &'static str, room: usize, x: &X, f: impl Fn(&mut Device, &X) -> fmt::Result) -> (String, bool) {
    let mut d = Device { text: String::new(), room, full: false };
    match lib_try(op, || f(&mut d, x)) {
        Ok(r) => (d.text, r.is_ok()),
        Err(e) => {
            c.fail("panic", format!("printing ({op}) panics after {:?}: {e}", d.text));
            (String::new(), false)
        }
    }
}
/// everything printed of a value is complete or reported as incomplete
fn device<X: ?Sized>(c: &mut Case, op: &'static str, x: &X, f: impl Fn(&mut Device, &X) -> fmt::Result + Copy) -> String {
    let (text, ok) = print(c, op, usize::MAX, x, f);
    c.check(ok, "refused", || format!("{op}: a device with room for everything is reported as failing after {text:?}"));
    let (again, _) = print(c, op, usize::MAX, x, f);
    c.check(again == text, "repeat", || format!("{op} prints {text:?} once and {again:?} the next time"));
    if !text.is_empty() {
        let room = c.rng.below(text.len());
        let (part, ok) = print(c, op, room, x, f);
        c.cover("device:full");
        c.check(!ok, "device", || format!("{op}: a device with room for {room} of {} bytes is not reported as failing", text.len()));
        c.check(text.starts_with(&part), "prefix", || format!("{op} prints {part:?} on a small device, {text:?} otherwise"));
    }
    text
}
fn debug<X: Debug>(c: &mut Case, op: &'static str, x: X, want: &[F]) {
    c.cover(op);
    for (alt, t) in [(false, device(c, op, &x, |d, x| write!(d, "{x:?}"))), (true, device(c, op, &x, |d, x| write!(d, "{x:#?}")))] {
        let got = numbers(&t);
        c.check(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same_bits(*a, *b)), if alt { "pretty" } else { "plain" }, || {
            format!("{op} prints {t:?}, which reads {got:?}, for {want:?}")
        });
    }
}
fn curve<const N: usize>(c: &mut Case, pts: &[Co]) {
    let want: Vec<F> = pts.iter().flatten().copied().collect();
    let q: Vec<PointN<F, N>> = pts.iter().map(|p| PointN::new(std::array::from_fn(|k| p[k]))).collect();
    match q[..] {
        [a] => debug(c, "point", a, &want),
        [a, b] => {
            let l = LineSegment::new(a, b);
            debug(c, "line", l, &want);
            debug(c, "segment-line", BezierSegment::from(l), &want);
        }
        [a, b, d] => {
            let l = QuadraticBezier::new(a, b, d);
            debug(c, "quadratic", l, &want);
            debug(c, "segment-quadratic", BezierSegment::from(l), &want);
        }
        [a, b, d, e] => {
            let l = CubicBezier::new(a, b, d, e);
            debug(c, "cubic", l, &want);
            debug(c, "segment-cubic", BezierSegment::from(l), &want);
        }
        _ => unreachable!(),
    }
}
fn other<const N: usize>(c: &mut Case, r: &mut Rng) {
    let v: [i32; N] = std::array::from_fn(|_| r.range(-1000, 1000) as i32);
    let w: [bool; N] = std::array::from_fn(|_| r.chance(0.5));
    let t = device(c, "point", &PointN::new(v), |d, x| write!(d, "{x:?}"));
    c.cover("other-component");
    let got: Vec<i32> = numbers(&t).iter().map(|x| *x as i32).collect();
    c.check(got == v, "plain", || format!("a point of the integers {v:?} prints {t:?}"));
    let t = device(c, "point", &PointN::new(w), |d, x| write!(d, "{x:?}"));
    let got: Vec<bool> = t.split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|x| x.parse().ok()).collect();
    c.check(got == w, "plain", || format!("a point of the truth values {w:?} prints {t:?}"));
}
macro_rules! dims {
    ($f:ident, $dim:expr, $($x:expr),+) => {
        match $dim {
            1 => $f::<1>($($x),+),
            2 => $f::<2>($($x),+),
            3 => $f::<3>($($x),+),
            4 => $f::<4>($($x),+),
            5 => $f::<5>($($x),+),
            6 => $f::<6>($($x),+),
            7 => $f::<7>($($x),+),
            8 => $f::<8>($($x),+),
            9 => $f::<9>($($x),+),
            12 => $f::<12>($($x),+),
            16 => $f::<16>($($x),+),
            33 => $f::<33>($($x),+),
            d => panic!("dimension {d}"),
        }
    };
}
fn main() {
    let spec = Spec {
        prop: "C31",
        quick: 300_000,
        mult: 60,
        rule: "random points, segments, quadratic and cubic curves and wrapped segments in 1..33 dimensions (full magnitude range, signed zeros, NaN, infinities, subnormal numbers), points of integers and truth values, and all errors, printed plainly and prettily to a device with room for everything and to one that runs full at a random byte; distinct by points, all non-trivial",
        need: &[("point", 2000), ("line", 2000), ("quadratic", 2000), ("cubic", 2000), ("segment-line", 2000), ("segment-quadratic", 2000), ("segment-cubic", 2000), ("error", 1000), ("device:full", 20000), ("special", 2000), ("other-component", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        if c.rng.chance(0.05) {
            let all = [
                (E::TooFewControlPoints, "TooFewControlPoints"),
                (E::TooFewKnots, "TooFewKnots"),
                (E::TooManyKnots, "TooManyKnots"),
                (E::DecreasingKnots, "DecreasingKnots"),
                (E::KnotDomainViolation, "KnotDomainViolation"),
                (E::EvaluationAlphaIsNaN, "EvaluationAlphaIsNaN"),
            ];
            let (mut shown, mut debugged): (Vec<String>, Vec<String>) = (vec![], vec![]);
            for (e, name) in &all {
                c.cover("error");
                shown.push(device(c, "error", e as &dyn Display, |d, x| write!(d, "{x}")));
                let t = device(c, "error-debug", e as &dyn Debug, |d, x| write!(d, "{x:?}"));
                c.check(t.contains(name), "name", || format!("{name} is printed as {t:?} for debugging"));
                debugged.push(t);
            }
            for v in [&shown, &debugged] {
                for i in 0..v.len() {
                    c.check(!v[i].trim().is_empty() && !v[..i].contains(&v[i]), "message", || format!("messages {v:?} are not all different"));
                }
            }
            c.nontrivial(c.idx);
            return;
        }
        let mut r = Rng::new(31, c.rng.u64(), c.idx);
        let dim = gen::dimension(&mut c.rng);
        dims!(other, if dim > 8 { 8 } else { dim }, c, &mut r);
        let n = 1 + c.rng.below(4);
        let (mut pts, class) = gen::points(&mut c.rng, dim, n, if IS32 { 37 } else { 300 });
        c.cover(class);
        if c.rng.chance(0.3) {
            c.cover("special");
            for p in pts.iter_mut() {
                for x in p.iter_mut() {
                    *x = match c.rng.below(9) {
                        0 => F::NAN,
                        1 => F::INFINITY,
                        2 => F::NEG_INFINITY,
                        3 => -0.0,
                        4 => F::MIN_POSITIVE * 0.25,
                        5 => F::MAX,
                        6 => 0.1,
                        _ => *x,
                    };
                }
            }
        }
        dims!(curve, dim, c, &pts);
        c.nontrivial(hash_ps(n as u64, &pts));
        if c.want_sample() {
            c.sample(shows(&pts));
        }
    });
}
