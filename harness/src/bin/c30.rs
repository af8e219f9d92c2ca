//! C30: derived objects carry no hidden past. Chains of splits, derivatives, baselines, copies, wrappings and mutations;
//! every object met on the way is compared with an object newly constructed from what it reports about itself, and with
//! the mathematics of the whole chain.
use harness::{chk::*, curves::*, dd::DD, gen, hash_f, hash_ps, mon::*, refm, shows, splines, workout::*, Co, F, IS32, RT, TINY};

/// the control points an object reports; a line reports them through its wrapped form
fn reported(o: &dyn DynCurve) -> Vec<Co> {
    if let Some(p) = o.ctrl() {
        return p;
    }
    let ends = match o.start_end() {
        Some(e) => e,
        None => o.segment().expect("a line").start_end().expect("a segment"),
    };
    vec![ends.0, ends.1]
}
/// two answers to the same request: equal, or apart by rounding only
fn agree(a: &Option<Vec<F>>, b: &Option<Vec<F>>, scale: f64) -> bool {
    if bits(a) == bits(b) {
        return true;
    }
    match (a, b) {
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()) || (*x as f64 - *y as f64).abs() <= RT * (x.abs() as f64 + y.abs() as f64 + scale)),
        _ => false,
    }
}
fn main() {
    let spec = Spec {
        prop: "C30",
        quick: 220_000,
        mult: 40,
        rule: "random chains of 1..6 operations (split and keep a part, derive, baseline, copy, wrap, mutate) from random curves of all types, with random requests in between, and chains of derivatives and copies of random B-splines; after each operation all requests are put to the object and to one newly constructed from the control points and knots it reports, and its points are compared with those of the chain in double-double arithmetic; distinct by type, points and chain, non-trivial when the chain has at least two operations and the points are not all equal",
        need: &[("op:first", 5000), ("op:second", 5000), ("op:derivative", 5000), ("op:baseline", 2000), ("op:copy", 5000), ("op:wrap", 1000), ("op:mutate", 2000), ("split-derivative", 2000), ("derivative-split", 2000), ("wrap-split", 500), ("deep", 5000), ("bspline", 5000), ("spline-derivative", 5000), ("spline-outside", 5000), ("kind:line", 500), ("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500), ("kind:segment-line", 200), ("kind:segment-quadratic", 200), ("kind:segment-cubic", 200)],
        no_alloc: false,
    };
    drive(spec, |c| if c.rng.chance(0.3) { spline(c) } else { curve(c) });
}
fn curve(c: &mut Case) {
    let cv = gen::curve(c, &[], if IS32 { 6 } else { 60 });
    let mut o = make(cv.kind, &cv.pts);
    // the reference: `w` times the derivative of order `j` of the curve of `base`, over [a, b] of its parameter
    let (mut base, mut a, mut b, mut j, mut w) = (cv.pts.clone(), DD::ZERO, DD::ONE, 0usize, DD::ONE);
    let mut sc: Vec<f64> = (0..cv.dim).map(|k| refm::axis_max(&base, k)).collect();
    let mut hist: Vec<String> = vec![];
    let (mut last, mut params) = ("", vec![]);
    let mut done = 0;
    let len = 1 + c.rng.below(6);
    for _ in 0..len {
        // requests in between must not leave anything behind that a derived object could inherit
        let m = sc.iter().fold(1e-3f64, |x, y| x.max(*y));
        for _ in 0..c.rng.below(3) {
            let q = draw(&mut c.rng, cv.dim, m, 20);
            let _ = ask(&*o, &q);
            hist.push(format!("{q:?}"));
        }
        let kind = o.kind();
        let op = match c.rng.below(10) {
            0..=2 => "op:first",
            3 | 4 => "op:second",
            5 | 6 => "op:derivative",
            7 => "op:copy",
            8 => "op:mutate",
            _ if c.rng.chance(0.5) => "op:wrap",
            _ => "op:baseline",
        };
        match op {
            "op:first" | "op:second" => {
                let t = gen::param(&mut c.rng);
                params.push(t);
                let (x, y) = o.split(t);
                let mid = a + (b - a) * refm::dd(t);
                if op == "op:first" {
                    hist.push(format!("first part of the split at {t:?}"));
                    o = x;
                    b = mid;
                } else {
                    hist.push(format!("second part of the split at {t:?}"));
                    o = y;
                    a = mid;
                }
                if last == "op:derivative" {
                    c.cover("derivative-split");
                }
                if last == "op:wrap" {
                    c.cover("wrap-split");
                }
            }
            "op:derivative" => {
                if j >= 5 || (kind == Kind::Bez && o.n() < 2) {
                    continue;
                }
                let Some(d) = o.derivative() else { continue };
                hist.push("derivative".into());
                let gain = 2.0 * (o.n() - 1) as f64;
                sc.iter_mut().for_each(|s| *s *= gain);
                if last == "op:first" || last == "op:second" {
                    c.cover("split-derivative");
                }
                j += 1;
                w = w * (b - a);
                if kind == Kind::Line {
                    // a constant vector ends the chain
                    let want: Vec<f64> = refm::bezier_deriv(&base, j, 0.0).iter().map(|x| x * w.f()).collect();
                    near(c, "line-derivative", &d.eval(0.0), &want, |k| 4.0 * lin(sc[k]), || format!("{:?} {} after {hist:?}", cv.kind, shows(&cv.pts)));
                    done += 1;
                    break;
                }
                o = d;
            }
            "op:copy" => {
                hist.push("copy".into());
                o = o.copy();
            }
            "op:mutate" => {
                let i = c.rng.below(o.n());
                let v: Co = (0..cv.dim).map(|_| (c.rng.sym() * m) as F).collect();
                let mut p = reported(&*o);
                if !o.mutate(i, &v) {
                    continue;
                }
                hist.push(format!("set point {i} to {v:?}"));
                p[i] = v;
                (base, a, b, j, w) = (p, DD::ZERO, DD::ONE, 0, DD::ONE);
                sc = (0..cv.dim).map(|k| refm::axis_max(&base, k)).collect();
            }
            "op:wrap" => {
                let Some(s) = o.segment() else { continue };
                hist.push("wrap".into());
                o = s;
            }
            _ => {
                let Some(l) = o.baseline() else { continue };
                hist.push("baseline".into());
                let p = reported(&*o);
                base = vec![p[0].clone(), p[p.len() - 1].clone()];
                (a, b, j, w) = (DD::ZERO, DD::ONE, 0, DD::ONE);
                sc = (0..cv.dim).map(|k| refm::axis_max(&base, k)).collect();
                o = l;
            }
        }
        c.cover(op);
        last = op;
        done += 1;
        if done >= 4 {
            c.cover("deep");
        }
        inspect(c, &*o, &base, a, b, (j, w), &sc, &|| format!("{:?} {} after {hist:?}", cv.kind, shows(&cv.pts)));
    }
    if done >= 2 && cv.pts.iter().any(|p| p != &cv.pts[0]) {
        c.nontrivial(hash_f(hash_ps(cv.kind as u64 * 8 + done as u64, &cv.pts), &params));
    }
    if c.want_sample() {
        c.sample(format!("{:?} {} chain {hist:?}", cv.kind, shows(&cv.pts)));
    }
}
fn inspect(c: &mut Case, o: &dyn DynCurve, base: &[Co], a: DD, b: DD, (j, w): (usize, DD), sc: &[f64], ctx: &dyn Fn() -> String) {
    let pts = reported(o);
    c.check(pts.len() == o.n() && o.n() + j == base.len(), "points", || format!("{} control points where {} are due: {}", pts.len(), base.len() - j, ctx()));
    // what the chain prescribes
    let n = base.len() - 1;
    for s in [0.0, 1.0, gen::param(&mut c.rng)] {
        let u = a + (b - a) * refm::dd(s);
        let wt: Vec<DD> = refm::bernstein_deriv(n, j, u).into_iter().map(|x| x * w).collect();
        let want = refm::combine(&wt, base);
        for (m, got) in o.evals(s) {
            near(c, &format!("chain:{m}"), &got, &want, |k| 8.0 * lin(sc[k]), || format!("at s={s:?}: {}", ctx()));
        }
    }
    // what a new object answers
    let f = make(o.kind(), &pts);
    let m = refm::max_abs(&pts);
    let scale = m * 4.0 * (pts.len() * pts.len()) as f64;
    let dim = pts[0].len();
    let mut qs = all(&mut c.rng, dim, m.max(1e-3), 20);
    for _ in 0..2 {
        qs.push(draw(&mut c.rng, dim, m.max(1e-3), 20));
    }
    // a tolerance at the size of the object itself
    let e = (m * c.rng.unit().powi(6)) as F;
    qs.extend([Q::Linear(e), Q::IsPoint(e)]);
    for q in qs {
        let (x, y) = (ask(o, &q), ask(&*f, &q));
        c.check(agree(&x, &y, scale), q.name(), || format!("{q:?} answers {x:?}, a new {:?} with the control points {} answers {y:?}: {}", o.kind(), shows(&pts), ctx()));
    }
}
fn spline(c: &mut Case) {
    c.cover("bspline");
    let s = gen::spline_case(c, 0, 0, if IS32 { 6 } else { 40 }, &splines::SPLINES);
    let mut o = match splines::spline(s.d, &s.knots, &s.pts).expect("instantiated") {
        Ok(x) => x,
        Err(e) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
    };
    let dom = s.domain();
    let mut hist: Vec<String> = vec![];
    let (mut j, mut done) = (0, 0);
    for _ in 0..1 + c.rng.below(4) {
        for _ in 0..c.rng.below(3) {
            let q = sdraw(&mut c.rng, &s, 20);
            let _ = sask(&*o, &q);
            hist.push(format!("{q:?}"));
        }
        if c.rng.chance(0.75) {
            if !(refm::deriv_bound_any(&s.knots, &s.pts, s.d, j + 1) < F::MAX as f64 * 1e-3) {
                c.cover("beyond-range");
                break;
            }
            let Some(x) = o.derivative() else { break };
            c.cover("spline-derivative");
            hist.push("derivative".into());
            o = x;
            j += 1;
        } else {
            hist.push("copy".into());
            o = o.copy();
        }
        done += 1;
        let ctx = || format!("{} after {hist:?}", s.show());
        let (knots, pts) = (o.knots(), o.ctrl());
        c.check(o.domain() == dom && o.degree() == s.d - j, "domain", || format!("degree {}, domain {:?}: {}", o.degree(), o.domain(), ctx()));
        let Some(f) = splines::spline(o.degree(), &knots, &pts) else {
            c.fail("shape", format!("{} knots and {} control points for degree {}: {}", knots.len(), pts.len(), o.degree(), ctx()));
            return;
        };
        let f = match f {
            Ok(f) => f,
            Err(e) => {
                c.fail("refused", format!("a spline with the reported knots {knots:?} is refused, {e:?}: {}", ctx()));
                return;
            }
        };
        let mut ts = gen::spline_params(&mut c.rng, &s, 2);
        while ts.len() > 24 {
            let i = c.rng.below(ts.len());
            ts.swap_remove(i);
        }
        let m = refm::max_abs(&pts);
        let scale = m * 64.0;
        for t in &ts {
            let span = refm::span(&s.knots, s.d, s.c(), *t).unwrap();
            let want = refm::combine(&refm::basis_deriv(&s.knots, s.d, j, span, *t), &s.pts);
            if !want.iter().all(|v| v.is_finite()) {
                c.cover("reference-beyond-range");
                continue;
            }
            match o.eval(*t) {
                Ok(p) => {
                    near(c, "chain:value", &p, &want, |k| RT * refm::deriv_bound(&s.knots, &s.pts, s.d, j, span, k) + TINY, || format!("at t={t:?}: {}", ctx()));
                }
                Err(e) => c.fail("chain:value", format!("at t={t:?} = {e:?}: {}", ctx())),
            }
        }
        let outside = [gen::next_down(dom.0), gen::next_up(dom.1), knots[0] - 1.0, knots[knots.len() - 1] + 1.0, knots[0], knots[knots.len() - 1]];
        c.cover("spline-outside");
        let mut qs: Vec<SQ> = ts.iter().chain(&outside).map(|t| SQ::Eval(*t)).collect();
        qs.extend([SQ::Domain, SQ::Knots, SQ::Ctrl, SQ::Arclen(gen::steps(&mut c.rng, 20)), SQ::Copy(ts[0])]);
        for q in qs {
            let (x, y) = (sask(&*o, &q), sask(&*f, &q));
            c.check(agree(&x, &y, scale), q.name(), || format!("{q:?} answers {x:?}, a new spline with knots {knots:?} and control points {} answers {y:?}: {}", shows(&pts), ctx()));
        }
        // and once more through both: the derivatives of both, asked everything of
        if let (true, Some(x), Some(y)) = (refm::deriv_bound_any(&s.knots, &s.pts, s.d, j + 1) < F::MAX as f64 * 1e-3, o.derivative(), f.derivative()) {
            let scale = refm::max_abs(&x.ctrl()) * 64.0;
            for q in ts.iter().take(6).chain(&outside).map(|t| SQ::Eval(*t)).chain([SQ::Domain, SQ::Knots, SQ::Ctrl, SQ::Arclen(5)]) {
                let (u, v) = (sask(&*x, &q), sask(&*y, &q));
                c.check(agree(&u, &v, scale), q.name(), || format!("{q:?} of the derivative answers {u:?}, that of a new spline {v:?}: {}", ctx()));
            }
        }
    }
    if done >= 2 && s.pts.iter().any(|p| p != &s.pts[0]) {
        c.nontrivial(hash_f(hash_ps(1000 + (s.d * 8 + done) as u64, &s.pts), &s.knots));
    }
    if c.want_sample() {
        c.sample(format!("{} chain {hist:?}", s.show()));
    }
}
