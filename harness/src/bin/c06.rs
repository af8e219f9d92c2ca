//! C06: bounding boxes.
use harness::{chk::*, curves::*, gen, hash_ps, mon::*, refm, shows, EPS, F, IS32};

fn main() {
    let spec = Spec {
        prop: "C06",
        quick: 2_000_000,
        mult: 40,
        rule: "random lines, quadratics and cubics (16 configuration classes, plus curves with a designed pair of extrema or a near-double root) x dimension; box against the exact extent per axis and against 33 evaluated points; distinct by type and points, non-trivial when some side of the box is an interior extremum",
        need: &[("kind:line", 1000), ("kind:quadratic", 1000), ("kind:cubic", 1000), ("extrema:0", 1000), ("extrema:1", 1000), ("extrema:2", 1000), ("side:interior", 1000), ("pts:elevated", 100), ("near-double-root", 100), ("extremum-near-end", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let mut cv = gen::curve(c, &[Kind::Line, Kind::Quad, Kind::Cubic], if IS32 { 12 } else { 60 });
        if cv.kind == Kind::Cubic && c.rng.chance(0.25) {
            // choose the roots of the derivative: x' ~ (t-r1)(t-r2), possibly almost equal or near the ends
            for k in 0..cv.dim {
                let r1 = gen::param(&mut c.rng) as f64;
                let r2 = match c.rng.below(4) {
                    0 => r1 + c.rng.sym() * 10f64.powi(-(c.rng.range(2, 9) as i32)),
                    1 => r1,
                    _ => c.rng.sym() * 2.0,
                };
                let s = gen::magnitude(&mut c.rng, 4);
                let x0 = c.rng.sym() * s;
                // hodograph control values of s*(t-r1)(t-r2)
                let h = [s * r1 * r2, s * (r1 * r2 - (r1 + r2) / 2.0), s * (1.0 - r1) * (1.0 - r2)];
                let mut x = x0;
                cv.pts[0][k] = x as F;
                for i in 0..3 {
                    x += h[i] / 3.0;
                    cv.pts[i + 1][k] = x as F;
                }
                if (r1 - r2).abs() < 1e-2 {
                    c.cover("near-double-root");
                }
            }
        }
        let obj = make(cv.kind, &cv.pts);
        let b = obj.bbox().unwrap();
        c.check(b.len() == cv.dim, "dimension", || format!("box has {} sides for dimension {}", b.len(), cv.dim));
        if b.len() != cv.dim {
            return;
        }
        let mut interior = false;
        let samples: Vec<_> = (0..=32).map(|i| (i as F / 32.0, obj.eval(i as F / 32.0))).collect();
        for k in 0..cv.dim {
            let sc = refm::axis_max(&cv.pts, k);
            // extrema are found with an absolute threshold on the coefficients; the ends need none
            let tol = lin(sc) + if cv.kind == Kind::Line { 0.0 } else { 16.0 * EPS };
            let (lo, hi, inner) = refm::extent(&cv.pts, k);
            let ctx = || format!("axis {k} of {:?} {}", cv.kind, shows(&cv.pts));
            near1(c, "lower", b[k].0, lo, tol, ctx);
            near1(c, "upper", b[k].1, hi, tol, ctx);
            c.check(b[k].0 <= b[k].1, "order", || format!("lower {:?} > upper {:?}: {}", b[k].0, b[k].1, ctx()));
            for e in [&cv.pts[0], &cv.pts[cv.n - 1]] {
                c.check(b[k].0 as f64 <= e[k] as f64 + lin(sc) && b[k].1 as f64 >= e[k] as f64 - lin(sc), "end", || format!("end {:?} outside [{:?}, {:?}]: {}", e[k], b[k].0, b[k].1, ctx()));
            }
            for (t, p) in &samples {
                let x = p[k] as f64;
                c.check(x >= b[k].0 as f64 - tol && x <= b[k].1 as f64 + tol, "contains", || format!("point at t={t:?} has {x:e} outside [{:?}, {:?}]: {}", b[k].0, b[k].1, ctx()));
            }
            c.cover(match inner.len() {
                0 => "extrema:0",
                1 => "extrema:1",
                _ => "extrema:2",
            });
            let n = cv.n;
            let e = (cv.pts[0][k] as f64, cv.pts[n - 1][k] as f64);
            if lo < e.0.min(e.1) - tol || hi > e.0.max(e.1) + tol {
                c.cover("side:interior");
                interior = true;
            }
            if inner.iter().any(|t| *t < 0.02 || *t > 0.98) {
                c.cover("extremum-near-end");
            }
        }
        if interior {
            c.nontrivial(hash_ps(cv.kind as u64, &cv.pts));
        }
        if c.want_sample() {
            c.sample(format!("{:?} {} box {:?}", cv.kind, shows(&cv.pts), b));
        }
    });
}
