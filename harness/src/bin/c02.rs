//! C02: end points and control hull.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, show, shows, F, IS32};

fn main() {
    let spec = Spec {
        prop: "C02",
        quick: 3_000_000,
        mult: 40,
        rule: "random control point configurations x curve type x dimension x degree; end points, then per-axis and random-direction hull bounds at random parameters of [0,1]; distinct by type, points and parameter, non-trivial when the points are not all equal",
        need: &[("kind:line", 100), ("kind:quadratic", 100), ("kind:cubic", 100), ("kind:bezier", 1000), ("kind:segment-line", 100), ("kind:segment-quadratic", 100), ("kind:segment-cubic", 100), ("hull:direction", 1000), ("touches-hull", 100), ("pts:inner-far", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[], if IS32 { 16 } else { 90 });
        let obj = make(cv.kind, &cv.pts);
        let (dim, n) = (cv.dim, cv.n);
        let sc: Vec<f64> = (0..dim).map(|k| refm::axis_max(&cv.pts, k)).collect();
        let varied = cv.pts.iter().any(|p| p != &cv.pts[0]);
        let ctx = |t: F| format!("{:?} at t={:?} of {}", cv.kind, t, shows(&cv.pts));
        for (t, p) in [(0.0, &cv.pts[0]), (1.0, &cv.pts[n - 1])] {
            for (name, got) in obj.evals(t) {
                near(c, &format!("endpoint:{name}"), &got, &refm::wide(p), |k| lin(sc[k]), || ctx(t));
            }
        }
        if let Some((s, e)) = obj.start_end() {
            c.check(s == cv.pts[0] && e == cv.pts[n - 1], "start/end accessor", || format!("start {} end {} of {}", show(&s), show(&e), shows(&cv.pts)));
        }
        let lo: Vec<f64> = (0..dim).map(|k| cv.pts.iter().map(|p| p[k] as f64).fold(f64::INFINITY, f64::min)).collect();
        let hi: Vec<f64> = (0..dim).map(|k| cv.pts.iter().map(|p| p[k] as f64).fold(f64::NEG_INFINITY, f64::max)).collect();
        // a random direction, weighted so that all axes matter alike
        let dir: Vec<f64> = (0..dim).map(|k| c.rng.sym() / sc[k].max(f64::MIN_POSITIVE)).collect();
        let proj = |p: &[F]| -> f64 { p.iter().zip(&dir).map(|(x, y)| *x as f64 * y).sum() };
        let usable = dir.iter().all(|x| x.is_finite());
        let (dl, dh) = cv.pts.iter().map(|p| proj(p)).fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(x), b.max(x)));
        for _ in 0..3 {
            let t = gen::param(&mut c.rng);
            for (name, got) in obj.evals(t) {
                for k in 0..dim {
                    let g = got[k] as f64;
                    let tol = lin(sc[k]);
                    c.check(g >= lo[k] - tol && g <= hi[k] + tol, "hull", || format!("{name} axis {k}: {g:e} outside [{:e}, {:e}]: {}", lo[k], hi[k], ctx(t)));
                    if g <= lo[k] || g >= hi[k] {
                        c.cover("touches-hull");
                    }
                }
                if usable {
                    c.cover("hull:direction");
                    let g = proj(&got);
                    let tol = lin(dim as f64);
                    c.check(g >= dl - tol && g <= dh + tol, "hull-direction", || format!("{name}: projection {g:e} outside [{dl:e}, {dh:e}] in direction {dir:?}: {}", ctx(t)));
                }
            }
            if varied {
                c.nontrivial(hash_f(hash_ps(cv.kind as u64, &cv.pts), &[t]));
            }
        }
        if c.want_sample() {
            let s = format!("{:?} {} start {} end {}", cv.kind, shows(&cv.pts), show(&obj.eval(0.0)), show(&obj.eval(1.0)));
            c.sample(s);
        }
    });
}
