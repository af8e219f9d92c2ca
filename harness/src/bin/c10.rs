//! C10: linearity and point predicates, baseline.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, shows, EPS, F, IS32, RT};

fn main() {
    let spec = Spec {
        prop: "C10",
        quick: 4_800_000,
        mult: 40,
        rule: "random quadratics and cubics, direct and wrapped, with inner control points placed on, beside or beyond the baseline and tolerances just below, just above and far from the deciding distance; wrapped lines; distinct by type, points and tolerance, non-trivial when the points are not all equal",
        need: &[("linear:true", 1000), ("linear:false", 1000), ("linear:false-by-one-point", 500), ("linear:ends-coincide", 100), ("linear:beyond-end", 500), ("point:true", 500), ("point:false", 500), ("wrapped-line", 500), ("tolerance:tight", 500)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let mut cv = gen::curve(c, &[Kind::Quad, Kind::Cubic, Kind::SegQuad, Kind::SegCubic, Kind::SegLine], if IS32 { 5 } else { 30 });
        let n = cv.n;
        let dim = cv.dim;
        if n > 2 && c.rng.chance(0.6) {
            // inner points relative to the baseline
            let base: Vec<(f64, f64)> = (0..dim).map(|k| (cv.pts[0][k] as f64, cv.pts[n - 1][k] as f64)).collect();
            let len = base.iter().map(|(a, b)| (b - a) * (b - a)).sum::<f64>().sqrt();
            for i in 1..n - 1 {
                let u = match c.rng.below(5) {
                    0 => -c.rng.unit(),
                    1 => 1.0 + c.rng.unit(),
                    _ => c.rng.unit(),
                };
                let off = *c.rng.pick(&[0.0, 0.0, 1e-3, 0.1, 1.0]) * len;
                for k in 0..dim {
                    cv.pts[i][k] = (base[k].0 + u * (base[k].1 - base[k].0) + off * c.rng.sym()) as F;
                }
            }
        } else if c.rng.chance(0.3) {
            // a cluster: nearly a point
            let s = 10f64.powi(-(c.rng.range(1, 5) as i32));
            let o = cv.pts[0].clone();
            for i in 1..n {
                for k in 0..dim {
                    cv.pts[i][k] = (o[k] as f64 + s * c.rng.sym()) as F;
                }
            }
        }
        let obj = make(cv.kind, &cv.pts);
        let m = refm::max_abs(&cv.pts);
        let slack = lin(m * (dim as f64).sqrt()) * 4.0;
        let inner: Vec<(f64, f64)> = (1..n - 1).map(|i| refm::segment_distance(&cv.pts[0], &cv.pts[n - 1], &cv.pts[i])).collect();
        let worst = inner.iter().map(|x| x.0).fold(0.0, f64::max);
        let ends = refm::dist(&refm::wide(&cv.pts[0]), &refm::wide(&cv.pts[n - 1]));
        let far = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| refm::dist(&refm::wide(&cv.pts[i]), &refm::wide(&cv.pts[j]))).fold(0.0, f64::max);
        let from_start = (0..n).map(|i| refm::dist(&refm::wide(&cv.pts[0]), &refm::wide(&cv.pts[i]))).fold(0.0, f64::max);
        let mid = *c.rng.pick(&[worst, far, from_start, m]);
        let tight = c.rng.chance(0.5);
        let f = if tight { *c.rng.pick(&[0.999, 1.001, 0.9, 1.1]) } else { *c.rng.pick(&[0.0, 0.3, 0.49, 0.6, 1.5, 2.1, 10.0, 1e7, f64::INFINITY]) };
        let tol = (mid * f) as F;
        if tight {
            c.cover("tolerance:tight");
        }
        let td = tol as f64;
        let ctx = || format!("tolerance {tol:?} {:?} {} (farthest inner {worst:e}, ends {ends:e}, diameter {far:e})", cv.kind, shows(&cv.pts));
        if cv.kind == Kind::SegLine {
            c.cover("wrapped-line");
            let got = obj.is_linear(tol);
            c.check(got == Some(true), "linear-line", || format!("a wrapped line is not linear: {}", ctx()));
        } else {
            let got = obj.is_linear(tol).unwrap();
            if ends * ends < EPS / 4.0 {
                c.cover("linear:ends-coincide");
                c.check(!got, "linear-coincident", || format!("linear although the ends coincide: {}", ctx()));
            } else if ends * ends > 4.0 * EPS {
                if td >= worst + slack {
                    c.cover("linear:true");
                    c.check(got, "linear-missed", || format!("not linear: {}", ctx()));
                } else if td < worst - slack {
                    c.cover("linear:false");
                    if inner.len() > 1 && inner.iter().filter(|x| x.0 > td).count() == 1 {
                        c.cover("linear:false-by-one-point");
                    }
                    c.check(!got, "linear-wrong", || format!("linear: {}", ctx()));
                }
                if inner.iter().any(|x| x.1 < -0.01 || x.1 > 1.01) {
                    c.cover("linear:beyond-end");
                }
            }
            if let Some(p) = obj.is_a_point(tol) {
                // tolerances whose square underflows decide nothing
                if td * td > 1e-30 || td == 0.0 {
                    if far <= td * (1.0 - RT) - slack || (far == 0.0 && td >= 0.0) {
                        c.cover("point:true");
                        c.check(p, "point-missed", || format!("not a point: {}", ctx()));
                    } else if from_start > 2.0 * td * (1.0 + RT) + slack {
                        c.cover("point:false");
                        c.check(!p, "point-wrong", || format!("a point: {}", ctx()));
                    }
                }
            }
        }
        let b = obj.baseline().unwrap();
        near(c, "baseline", &b.eval(0.0), &refm::wide(&cv.pts[0]), |_| lin(m), ctx);
        near(c, "baseline", &b.eval(1.0), &refm::wide(&cv.pts[n - 1]), |_| lin(m), ctx);
        if cv.pts.iter().any(|p| p != &cv.pts[0]) {
            c.nontrivial(hash_f(hash_ps(cv.kind as u64, &cv.pts), &[tol]));
        }
        if c.want_sample() {
            let s = format!("{} -> {:?}", ctx(), obj.is_linear(tol));
            c.sample(s);
        }
    });
}
