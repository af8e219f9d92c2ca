//! The workload, shared with the hosted monitor: every operation of the library, answers folded into hashes.
use stroke::bezier_segment::BezierSegment;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

#[cfg(all(target_pointer_width = "64", not(stroke_verif_f32)))]
type F = f64;
#[cfg(not(all(target_pointer_width = "64", not(stroke_verif_f32))))]
type F = f32;

/// hash, generator, whether inputs are hostile, number of steps to flatten with
pub struct H(u64, u64, bool, usize);
impl H {
    fn next(&mut self) -> u64 {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.1 >> 33
    }
    /// in [0,1]
    fn unit(&mut self) -> F {
        (self.next() & 0xffff) as F / 65535.0
    }
    fn num(&mut self) -> F {
        let x = (self.next() & 0xffff) as F / 4096.0 - 8.0;
        if !self.2 {
            return x;
        }
        // repeated, collapsed, tiny and large coordinates
        match self.next() & 15 {
            0 | 1 => 0.0,
            2 => -0.0,
            3 | 4 => 1.0,
            5 => x * 1e-9,
            6 => x * 1e9,
            7 => x * 1e-30,
            8 => 1.0 + x * 1e-6,
            9 | 10 => ((self.next() & 3) as F) - 1.0,
            _ => x,
        }
    }
    fn add(&mut self, x: F) {
        #[allow(clippy::unnecessary_cast)]
        let b = if x.is_nan() { 1 } else { (x as f64).to_bits() };
        self.0 = (self.0 ^ b).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
    }
    fn flag(&mut self, b: bool) {
        self.add(b as u8 as F);
    }
}
macro_rules! bezs {
    ($($f:ident $N:literal),+) => {
        $(
            pub fn $f(h: &mut H) {
                let mut c = [P::default(); $N];
                for x in c.iter_mut() {
                    *x = pt(h);
                }
                let mut l = Bezier::new(c);
                let (t, q) = (h.unit(), pt(h));
                put(h, l.eval(t));
                put(h, Spline::eval(&l, t));
                put(h, l.derivative().eval(t));
                h.add(l.distance_to_point(q));
                h.add(l.arclen(h.3));
                let (a, b) = l.split(t);
                put(h, a.control_points()[1]);
                for x in b {
                    put(h, x);
                }
                for x in &mut l {
                    *x = *x * 0.5;
                }
                put(h, l.eval(t));
            }
        )+
    };
}
macro_rules! splines {
    ($($f:ident $K:literal $C:literal $D:literal),+) => {
        $(
            pub fn $f(h: &mut H) {
                let mut c = [P::default(); $C];
                for x in c.iter_mut() {
                    *x = pt(h);
                }
                let mut k = [0.0; $K];
                let mut x = h.num();
                for y in k.iter_mut() {
                    *y = x;
                    if h.unit() < 0.8 {
                        x += h.unit() + 0.0625;
                    }
                }
                if h.unit() < 0.5 {
                    let x = k[0];
                    k[..=$D].fill(x);
                }
                if h.unit() < 0.5 {
                    let x = k[$C];
                    k[$C..].fill(x);
                }
                match BSpline::<P, $K, $C, $D>::new(k, c) {
                    Ok(s) => {
                        let (a, b) = s.knot_domain();
                        h.add(a);
                        h.add(b);
                        for y in s.knots() {
                            h.add(*y);
                        }
                        for i in 0..9 {
                            let t = a + (b - a) * (i as F / 7.0);
                            match s.eval(t) {
                                Ok(p) => put(h, p),
                                Err(e) => h.add(e as u8 as F),
                            }
                        }
                        h.add(s.arclen(h.3));
                        let d = s.derivative();
                        if let Ok(p) = d.eval((a + b) * 0.5) {
                            put(h, p);
                        }
                        for p in d.control_points() {
                            put(h, *p);
                        }
                    }
                    Err(e) => h.add(e as u8 as F),
                }
                k[$C - 1] = k[$C] + 1.0;
                h.flag(BSpline::<P, $K, $C, $D>::new(k, c).is_err());
            }
        )+
    };
}
macro_rules! dims {
    ($name:ident, $D:literal) => {
        mod $name {
            use super::*;
            type P = PointN<F, $D>;
            fn pt(h: &mut H) -> P {
                let mut a = [0.0; $D];
                for x in a.iter_mut() {
                    *x = h.num();
                }
                PointN::new(a)
            }
            fn put(h: &mut H, p: P) {
                for k in 0..$D {
                    h.add(p.axis(k));
                }
            }
            fn boxed(h: &mut H, b: [(F, F); $D]) {
                for (lo, hi) in b {
                    h.add(lo);
                    h.add(hi);
                }
            }
            pub fn point(h: &mut H) {
                let (a, b, s) = (pt(h), pt(h), h.num());
                put(h, a + b);
                put(h, a - b);
                put(h, a * s);
                put(h, a + s);
                put(h, a - s);
                put(h, P::default());
                h.add(a.squared_length());
                h.flag(a == b);
                let mut c = a;
                for x in &mut c {
                    *x = *x + s;
                }
                for x in c {
                    h.add(x);
                }
            }
            pub fn line(h: &mut H) {
                let l = LineSegment::new(pt(h), pt(h));
                let (t, q) = (h.unit(), pt(h));
                put(h, l.eval(t));
                put(h, l.derivative());
                h.add(l.axis(t, $D - 1));
                h.add(l.distance_to_point(q));
                boxed(h, l.bounding_box());
                let (a, b) = l.split(t);
                put(h, a.eval(t));
                put(h, b.eval(t));
                h.flag(a == b);
                seg(h, BezierSegment::from(l));
            }
            fn seg(h: &mut H, s: BezierSegment<P>) {
                let t = h.unit();
                put(h, s.eval::<F>(t));
                put(h, s.start());
                put(h, s.end());
                let tol = h.unit();
                h.flag(s.is_linear::<F>(tol));
                put(h, s.baseline().eval(t));
                let (a, b) = s.split::<F>(t);
                put(h, a.eval::<F>(t));
                put(h, b.eval::<F>(t));
                h.flag(a == b);
            }
            pub fn quad(h: &mut H) {
                let l = QuadraticBezier::new(pt(h), pt(h), pt(h));
                let (t, q) = (h.unit(), pt(h));
                put(h, l.eval(t));
                put(h, l.eval_casteljau(t));
                put(h, l.derivative().eval(t));
                h.add(l.axis(t, 0));
                h.add(l.dd(t, $D - 1));
                h.add(l.distance_to_point(q));
                h.add(l.arclen(h.3));
                h.flag(l.is_linear(t));
                h.flag(l.is_a_point(t));
                put(h, l.baseline().eval(t));
                boxed(h, l.bounding_box());
                let (a, b) = l.split(t);
                put(h, a.control_points()[1]);
                put(h, b.control_points()[1]);
                h.flag(a == b);
                seg(h, BezierSegment::from(l));
            }
            pub fn cubic(h: &mut H) {
                let l = CubicBezier::new(pt(h), pt(h), pt(h), pt(h));
                let (t, q) = (h.unit(), pt(h));
                put(h, l.eval(t));
                put(h, l.eval_casteljau(t));
                put(h, l.derivative().eval(t));
                h.add(l.axis(t, 0));
                h.add(l.dd(t, $D - 1));
                h.add(l.distance_to_point(q));
                h.add(l.arclen(h.3));
                h.flag(l.is_linear(t));
                h.flag(l.is_a_point(t));
                put(h, l.baseline().eval(t));
                boxed(h, l.bounding_box());
                let (a, b) = l.split(t);
                put(h, a.control_points()[1]);
                put(h, b.control_points()[1]);
                h.flag(a == b);
                seg(h, BezierSegment::from(l));
            }
            bezs!(bez2 2, bez3 3, bez6 6, bez11 11, bez17 17);
            splines!(sp1 4 2 1, sp2 8 5 2, sp3 10 6 3, sp5 18 12 5);
        }
    };
}
dims!(d1, 1);
dims!(d2, 2);
dims!(d3, 3);
dims!(d7, 7);
dims!(d16, 16);

type Job = (&'static str, fn(&mut H));
macro_rules! jobs {
    ($($d:ident $n:literal),+) => {
        [$(
            (concat!("point/", $n), $d::point as fn(&mut H)), (concat!("line/", $n), $d::line), (concat!("quadratic/", $n), $d::quad), (concat!("cubic/", $n), $d::cubic),
            (concat!("bezier-2/", $n), $d::bez2), (concat!("bezier-3/", $n), $d::bez3), (concat!("bezier-6/", $n), $d::bez6), (concat!("bezier-11/", $n), $d::bez11), (concat!("bezier-17/", $n), $d::bez17),
            (concat!("bspline-1/", $n), $d::sp1), (concat!("bspline-2/", $n), $d::sp2), (concat!("bspline-3/", $n), $d::sp3), (concat!("bspline-5/", $n), $d::sp5),
        )+]
    };
}
const JOBS: [Job; 65] = jobs!(d1 1, d2 2, d3 3, d7 7, d16 16);

pub fn run(out: &mut dyn FnMut(&str, u64)) {
    for &(name, f) in &JOBS {
        for seed in 0..8u64 {
            let mut h = H(seed, seed * 77 + 5, seed % 2 == 1, 17);
            for _ in 0..60 {
                f(&mut h);
            }
            out(name, h.0);
        }
    }
    // many steps
    for &(name, f) in &JOBS {
        let mut h = H(9, 9, false, 70_000);
        if !name.starts_with("point") && !name.starts_with("line") && name.ends_with("/2") {
            f(&mut h);
            out(name, h.0);
        }
    }
}
