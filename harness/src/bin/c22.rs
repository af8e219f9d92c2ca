//! C22: no heap use. The allocator of this process counts every heap event between entering and leaving a library call.
use harness::{curves::*, gen, hash_ps, mon::*, refm, splines, workout::*, F, IS32};

fn main() {
    let spec = Spec {
        prop: "C22",
        quick: 720_000,
        mult: 40,
        rule: "every operation of a random curve (all types, dimension 1..8, up to 10 points, step counts up to 300) or B-spline (valid and invalid definitions, parameters inside and outside, all derivatives), with the process's allocator counting heap events inside library calls; distinct by type and points, all non-trivial",
        need: &[("kind:line", 500), ("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500), ("kind:segment-line", 300), ("kind:segment-quadratic", 300), ("kind:segment-cubic", 300), ("bspline", 500), ("rejected", 300), ("outside", 300), ("mutated", 500), ("large", 100)],
        no_alloc: true,
    };
    drive(spec, |c| {
        if c.rng.chance(0.35) {
            c.cover("bspline");
            let s = gen::spline_case(c, 0, 2, if IS32 { 8 } else { 60 }, &splines::SPLINES);
            let sp = match splines::spline(s.d, &s.knots, &s.pts).expect("instantiated") {
                Ok(x) => x,
                Err(e) => {
                    c.fail("construct", format!("{e:?}: {}", s.show()));
                    return;
                }
            };
            for t in gen::spline_params(&mut c.rng, &s, 2) {
                let _ = sp.eval(t);
            }
            let (a, b) = s.domain();
            c.cover("outside");
            for t in [gen::next_down(a), gen::next_up(b), F::NAN, F::INFINITY] {
                let _ = sp.eval(t);
            }
            for _ in 0..6 {
                let q = sdraw(&mut c.rng, &s, 100);
                let _ = sask(&*sp, &q);
            }
            let _ = sask(&*sp, &SQ::Deriv(a));
            let mut bad = s.knots.clone();
            bad.reverse();
            bad[0] = F::NAN;
            c.cover("rejected");
            let _ = splines::spline(s.d, &bad, &s.pts);
            c.nontrivial(hash_ps(s.d as u64 + 100, &s.pts));
            if c.want_sample() {
                c.sample(s.show());
            }
            return;
        }
        let cv = gen::curve(c, &[], if IS32 { 12 } else { 100 });
        if cv.n * cv.dim >= 20 {
            c.cover("large");
        }
        let mut o = make(cv.kind, &cv.pts);
        let m = refm::max_abs(&cv.pts);
        for q in all(&mut c.rng, cv.dim, m, 300) {
            c.cover(q.name());
            let _ = ask(&*o, &q);
        }
        let i = c.rng.below(cv.n);
        if o.mutate(i, &cv.pts[0]) {
            c.cover("mutated");
        }
        c.nontrivial(hash_ps(cv.kind as u64, &cv.pts));
        if c.want_sample() {
            c.sample(format!("{:?} {}", cv.kind, harness::shows(&cv.pts)));
        }
    });
}
