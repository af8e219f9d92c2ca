//! C05: per-axis samplers.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, shows, IS32};

fn main() {
    let spec = Spec {
        prop: "C05",
        quick: 2_400_000,
        mult: 40,
        rule: "random lines, quadratics and cubics x dimension x axis x parameter in [0,1]; `axis` against the reference and the evaluated point, `dd` against the reference and the derivative curve; distinct by type, points and parameter, non-trivial when the points are not all equal",
        need: &[("kind:line", 1000), ("kind:quadratic", 1000), ("kind:cubic", 1000), ("dd", 1000), ("axis>=3", 100), ("t:0", 100), ("t:1", 100), ("t:inside", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[Kind::Line, Kind::Quad, Kind::Cubic], if IS32 { 25 } else { 90 });
        let obj = make(cv.kind, &cv.pts);
        let varied = cv.pts.iter().any(|p| p != &cv.pts[0]);
        let deriv = obj.derivative().unwrap();
        for _ in 0..3 {
            let t = gen::param(&mut c.rng);
            c.cover(gen::param_class(t));
            let want = refm::bezier(&cv.pts, t);
            let dwant = refm::bezier_deriv(&cv.pts, 1, t);
            let (p, dp) = (obj.eval(t), deriv.eval(t));
            for k in 0..cv.dim {
                let sc = refm::axis_max(&cv.pts, k);
                if k >= 3 {
                    c.cover("axis>=3");
                }
                let ctx = || format!("axis {k} at t={t:?} of {:?} {}", cv.kind, shows(&cv.pts));
                let a = obj.axis(t, k).unwrap();
                near1(c, "axis", a, want[k], lin(sc), ctx);
                near1(c, "axis-vs-eval", a, p[k] as f64, 2.0 * lin(sc), ctx);
                if let Some(d) = obj.dd(t, k) {
                    c.cover("dd");
                    let sc = sc * refm::deriv_gain(cv.n - 1, 1);
                    near1(c, "dd", d, dwant[k], lin(sc), ctx);
                    near1(c, "dd-vs-derivative", d, dp[k] as f64, 2.0 * lin(sc), ctx);
                }
            }
            if varied {
                c.nontrivial(hash_f(hash_ps(cv.kind as u64, &cv.pts), &[t]));
            }
            if c.want_sample() {
                let s = format!("{:?} {} at t={:?}: axis 0 = {:?}, dd 0 = {:?}", cv.kind, shows(&cv.pts), t, obj.axis(t, 0), obj.dd(t, 0));
                c.sample(s);
            }
        }
    });
}
