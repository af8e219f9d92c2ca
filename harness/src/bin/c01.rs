//! C01: evaluation equals the Bernstein polynomial.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, show, shows, IS32};

fn main() {
    let spec = Spec {
        prop: "C01",
        quick: 2_400_000,
        mult: 40,
        rule: "random control point configurations (16 classes) x curve type x dimension 1..8 x degree 0..9 x parameters in [0,1]; distinct by type, points and parameter, non-trivial when the points are not all equal",
        need: &[("kind:line", 100), ("kind:quadratic", 100), ("kind:cubic", 100), ("kind:bezier", 1000), ("kind:segment-line", 100), ("kind:segment-quadratic", 100), ("kind:segment-cubic", 100), ("t:0", 100), ("t:1", 100), ("t:near-0", 100), ("t:near-1", 100), ("pts:unit", 100), ("degree>=7", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[], if IS32 { 25 } else { 90 });
        if cv.n >= 8 {
            c.cover("degree>=7");
        }
        let obj = make(cv.kind, &cv.pts);
        let sc: Vec<f64> = (0..cv.dim).map(|k| refm::axis_max(&cv.pts, k)).collect();
        let varied = cv.pts.iter().any(|p| p != &cv.pts[0]);
        for _ in 0..5 {
            let t = gen::param(&mut c.rng);
            c.cover(gen::param_class(t));
            let want = refm::bezier(&cv.pts, t);
            for (name, got) in obj.evals(t) {
                near(c, name, &got, &want, |k| lin(sc[k]), || format!("{:?} at t={:?} of {} [{}]", cv.kind, t, shows(&cv.pts), cv.class));
            }
            if varied {
                c.nontrivial(hash_f(hash_ps(cv.kind as u64, &cv.pts), &[t]));
            }
            if c.want_sample() {
                let s = format!("{:?} {} at t={:?} -> {}", cv.kind, shows(&cv.pts), t, show(&obj.eval(t)));
                c.sample(s);
            }
        }
    });
}
