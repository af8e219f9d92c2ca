//! C03: splitting.
use harness::{chk::*, curves::*, dd::DD, gen, hash_f, hash_ps, mon::*, refm, shows, Co, F, IS32};

/// `part` is the part of `pts` over [a, b] (in the original's parameter)
fn part(c: &mut Case, name: &str, obj: &Dyn, kind: Kind, pts: &[Co], a: DD, b: DD, sc: &[f64], ctx: &dyn Fn() -> String) {
    c.check(obj.kind() == kind && obj.n() == pts.len() && obj.dim() == pts[0].len(), "type", || format!("{name} part is {:?} with {} points: {}", obj.kind(), obj.n(), ctx()));
    let mut ss: Vec<F> = vec![0.0, 1.0, 0.5];
    for _ in 0..2 {
        ss.push(gen::param(&mut c.rng));
    }
    for s in ss {
        let u = a + (b - a) * refm::dd(s);
        let want = refm::bezier_at(pts, u);
        for (m, got) in obj.evals(s) {
            near(c, &format!("{name}:{m}"), &got, &want, |k| lin(sc[k]), || format!("{name} part at s={s:?} (parameter {:e}): {}", u.f(), ctx()));
        }
    }
}
fn main() {
    let spec = Spec {
        prop: "C03",
        quick: 1_250_000,
        mult: 40,
        rule: "random control point configurations x curve type (all, also wrapped) x dimension x degree x split parameter in [0,1], both parts compared with the original at s in {0, 1/2, 1, random}, control points of the parts with the partial curves, one part split again; distinct by type, points and parameter, non-trivial when the points are not all equal and 0 < t < 1",
        need: &[("kind:line", 100), ("kind:quadratic", 100), ("kind:cubic", 100), ("kind:bezier", 1000), ("kind:segment-line", 100), ("kind:segment-quadratic", 100), ("kind:segment-cubic", 100), ("t:0", 100), ("t:1", 100), ("t:inside", 1000), ("nested", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[], if IS32 { 25 } else { 90 });
        let obj = make(cv.kind, &cv.pts);
        let n = cv.n;
        let sc: Vec<f64> = (0..cv.dim).map(|k| refm::axis_max(&cv.pts, k)).collect();
        let t = gen::param(&mut c.rng);
        c.cover(gen::param_class(t));
        let ctx = || format!("split of {:?} {} at t={:?}", cv.kind, shows(&cv.pts), t);
        let (l, r) = obj.split(t);
        let td = refm::dd(t);
        part(c, "first", &l, cv.kind, &cv.pts, DD::ZERO, td, &sc, &ctx);
        part(c, "second", &r, cv.kind, &cv.pts, td, DD::ONE, &sc, &ctx);
        // the parts' control points are the partial curves' points at t
        if let (Some(lc), Some(rc)) = (l.ctrl(), r.ctrl()) {
            for i in 0..n {
                near(c, "first:control", &lc[i], &refm::bezier(&cv.pts[..=i], t), |k| lin(sc[k]), || format!("control point {i} of the first part: {}", ctx()));
                near(c, "second:control", &rc[i], &refm::bezier(&cv.pts[i..], t), |k| lin(sc[k]), || format!("control point {i} of the second part: {}", ctx()));
            }
        }
        if let (Some((ls, le)), Some((rs, re))) = (l.start_end(), r.start_end()) {
            let m = refm::bezier(&cv.pts, t);
            near(c, "first:start", &ls, &refm::wide(&cv.pts[0]), |k| lin(sc[k]), ctx);
            near(c, "second:end", &re, &refm::wide(&cv.pts[n - 1]), |k| lin(sc[k]), ctx);
            near(c, "first:end", &le, &m, |k| lin(sc[k]), ctx);
            near(c, "second:start", &rs, &m, |k| lin(sc[k]), ctx);
        }
        if c.rng.chance(0.3) {
            c.cover("nested");
            let u = gen::param(&mut c.rng);
            let ud = refm::dd(u);
            let first = c.rng.chance(0.5);
            let (src, a, b) = if first { (&l, DD::ZERO, td) } else { (&r, td, DD::ONE) };
            let (x, y) = src.split(u);
            let m = a + (b - a) * ud;
            let ctx2 = || format!("{} part split again at {:?}: {}", if first { "first" } else { "second" }, u, ctx());
            part(c, "nested first", &x, cv.kind, &cv.pts, a, m, &sc, &ctx2);
            part(c, "nested second", &y, cv.kind, &cv.pts, m, b, &sc, &ctx2);
        }
        if t > 0.0 && t < 1.0 && cv.pts.iter().any(|p| p != &cv.pts[0]) {
            c.nontrivial(hash_f(hash_ps(cv.kind as u64, &cv.pts), &[t]));
        }
        if c.want_sample() {
            let s = ctx();
            c.sample(s);
        }
    });
}
