//! C14: B-spline domain and acceptance of parameters.
use harness::{gen, hash_f, mon::*, splines, F, IS32};
use stroke::bspline::BSplineError as E;

fn main() {
    let spec = Spec {
        prop: "C14",
        quick: 1_200_000,
        mult: 40,
        rule: "random accepted splines (degree 0..7 x 1..9 spans x all knot classes including over-repeated, almost-clamped and fully degenerate vectors), each asked at every knot, the knots' floating-point neighbours, inside and outside the domain, infinities and NaN; distinct by knots and degree, non-trivial when the domain has positive length and the spline is not clamped at both ends",
        need: &[("ends:clamped", 1000), ("ends:clamped-start", 1000), ("ends:clamped-end", 1000), ("ends:unclamped", 1000), ("knots:wild", 1000), ("knots:repeated-interior", 500), ("knots:break", 500), ("empty-domain", 20), ("inside", 10000), ("outside:below", 10000), ("outside:above", 10000), ("outside:neighbour", 10000), ("nan", 1000), ("almost-clamped", 500), ("large-knots", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let mut s = gen::spline_case(c, 0, 2, if IS32 { 8 } else { 60 }, &splines::SPLINES);
        let kn = s.knots.len();
        if c.rng.chance(0.08) {
            // ends that are clamped only up to a few ulps / a tiny absolute distance
            c.cover("almost-clamped");
            let tiny = *c.rng.pick(&[1e-18, 1e-12, 1e-6]);
            let (x, y) = (s.knots[s.d], s.knots[s.c()]);
            for i in 0..s.d {
                s.knots[i] = (x as f64 - tiny * (s.d - i) as f64) as F;
            }
            for i in s.c() + 1..kn {
                s.knots[i] = (y as f64 + tiny * (i - s.c()) as f64) as F;
            }
        }
        if c.rng.chance(0.06) {
            c.cover("large-knots");
            let f = if IS32 { *c.rng.pick(&[1e20f64, 1e-20, 1e-36, 1e30]) } else { *c.rng.pick(&[1e100f64, 1e-100, 1e-300, 1e150]) };
            for x in s.knots.iter_mut() {
                *x = (*x as f64 * f) as F;
            }
        }
        if s.knots.windows(2).any(|w| w[0] > w[1]) || s.knots.iter().any(|x| !x.is_finite()) {
            return;
        }
        let sp = match splines::spline(s.d, &s.knots, &s.pts).expect("instantiated") {
            Ok(sp) => sp,
            Err(e) => {
                c.fail("construct", format!("{e:?}: {}", s.show()));
                return;
            }
        };
        let (a, b) = (s.knots[s.d], s.knots[s.c()]);
        let dom = sp.domain();
        c.check(dom == (a, b), "domain", || format!("domain {dom:?} instead of {:?}: {}", (a, b), s.show()));
        if a == b {
            c.cover("empty-domain");
        }
        for t in gen::spline_params(&mut c.rng, &s, 6) {
            c.cover("inside");
            match sp.try_eval(t) {
                Ok(Ok(p)) => c.check(p.iter().all(|x| x.is_finite()), "finite", || format!("eval({t:?}) = {p:?}: {}", s.show())),
                Ok(Err(e)) => c.check(false, "rejected", || format!("eval({t:?}) inside the domain {:?} gives {e:?}: {}", (a, b), s.show())),
                Err(p) => c.check(false, "panic", || format!("eval({t:?}) panicked: {p}: {}", s.show())),
            }
        }
        let w = (b - a).abs().max(F::MIN_POSITIVE);
        let mut out: Vec<(F, &'static str)> = vec![
            (gen::next_down(a), "outside:neighbour"),
            (gen::next_up(b), "outside:neighbour"),
            (a - w * c.rng.unit() as F, "outside:below"),
            (b + w * c.rng.unit() as F, "outside:above"),
            (F::NEG_INFINITY, "outside:below"),
            (F::INFINITY, "outside:above"),
            (F::MAX, "outside:above"),
            (F::MIN, "outside:below"),
        ];
        // knots outside the domain and points between them
        for i in 0..kn {
            out.push((s.knots[i], "outside:knot"));
            if i + 1 < kn {
                out.push((s.knots[i] + (s.knots[i + 1] - s.knots[i]) * 0.5, "outside:between-knots"));
            }
        }
        for (t, what) in out {
            if t >= a && t <= b {
                continue;
            }
            c.cover(what);
            match sp.try_eval(t) {
                Ok(Err(E::KnotDomainViolation)) => c.eval1(),
                Ok(r) => c.check(false, "accepted", || format!("eval({t:?}) outside the domain {:?} gives {r:?}: {}", (a, b), s.show())),
                Err(p) => c.check(false, "panic", || format!("eval({t:?}) panicked: {p}: {}", s.show())),
            }
        }
        for t in [F::NAN, -F::NAN] {
            c.cover("nan");
            match sp.try_eval(t) {
                Ok(Err(_)) => c.eval1(),
                Ok(r) => c.check(false, "nan", || format!("eval(NaN) gives {r:?}: {}", s.show())),
                Err(p) => c.check(false, "panic", || format!("eval(NaN) panicked: {p}: {}", s.show())),
            }
        }
        if a < b && !(s.clamped_start() && s.clamped_end()) {
            c.nontrivial(hash_f(s.d as u64, &s.knots));
        }
        if c.want_sample() {
            c.sample(format!("domain {dom:?} of {}", s.show()));
        }
    });
}
