//! C24: no undefined behaviour, and the same curves on every target. The same workload is run natively (with overflow,
//! bounds and library-precondition checks), under Miri on a 32-bit and a 64-bit target, and under AddressSanitizer.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, rng::Rng, shows, splines, workout::*, Co, EPS, F, IS32, RT, TINY_SQ};
use stroke::{Point, PointN};

const SLOW: bool = cfg!(miri);

fn main() {
    let spec = Spec {
        prop: "C24",
        quick: 240_000,
        mult: 40,
        rule: "every operation of a random curve or B-spline and of points, with valid arguments (results against the reference in this target's precision) and invalid ones (axis beyond the dimension, parameters outside the domain or not finite, zero steps, malformed knots); distinct by type and points, all non-trivial",
        need: &[("kind:line", 300), ("kind:quadratic", 300), ("kind:cubic", 300), ("kind:bezier", 300), ("kind:segment-line", 200), ("kind:segment-quadratic", 200), ("kind:segment-cubic", 200), ("bspline", 3000), ("point", 3000), ("axis:beyond", 3000), ("parameter:invalid", 3000), ("steps:0", 1000), ("knots:rejected", 1000), ("mutated", 300), ("user-type", 500)],
        no_alloc: false,
    };
    assert_eq!(IS32, std::mem::size_of::<F>() == 4);
    drive(spec, |c| match c.idx % 10 {
        0 | 2 | 4 | 6 | 8 => curve(c),
        1 | 5 | 9 => spline(c),
        3 => point(c),
        _ => user(c),
    });
}
/// a small curve: interpretation is slow
fn small(c: &mut Case, kinds: &[Kind]) -> gen::Curve {
    loop {
        let cv = gen::curve(c, kinds, if IS32 { 6 } else { 30 });
        if !SLOW || (cv.dim <= 5 && cv.n * cv.dim <= 18) {
            return cv;
        }
    }
}
fn invalid_t(r: &mut Rng) -> F {
    *r.pick(&[-1.0, 1.5, -F::EPSILON, 1.0 + F::EPSILON, F::NAN, F::INFINITY, F::NEG_INFINITY, F::MAX, -1e6])
}
/// a request that may end in a panic or an error, but in nothing worse
fn attempt(c: &mut Case, f: impl FnOnce() -> Option<Vec<F>>) {
    let _ = lib_try("request", f);
    c.eval1();
}
fn curve(c: &mut Case) {
    let kinds: &[Kind] = if SLOW && c.idx % 4 == 0 { &[Kind::Line, Kind::Quad, Kind::Cubic, Kind::SegLine, Kind::SegQuad, Kind::SegCubic] } else { &[] };
    let cv = small(c, kinds);
    let mut o = make(cv.kind, &cv.pts);
    let mut pts = cv.pts.clone();
    reference(c, &*o, &pts, cv.kind);
    if !SLOW || c.rng.chance(0.4) {
        hostile_requests(c, &*o, &pts, cv.dim);
    }
    if cv.kind == Kind::Bez {
        let i = c.rng.below(cv.n);
        let v: Co = pts[c.rng.below(cv.n)].iter().map(|x| *x * 0.5).collect();
        o.mutate(i, &v);
        pts[i] = v;
        c.cover("mutated");
        let got = o.into_points().unwrap();
        c.check(got == pts, "points", || format!("{} instead of {}", shows(&got), shows(&pts)));
    }
    c.nontrivial(hash_ps(cv.kind as u64, &cv.pts));
    if c.want_sample() {
        c.sample(format!("{:?} {}", cv.kind, shows(&cv.pts)));
    }
}
fn reference(c: &mut Case, o: &dyn DynCurve, pts: &[Co], kind: Kind) {
    let (dim, n) = (pts[0].len(), pts.len());
    let ax: Vec<f64> = (0..dim).map(|k| refm::axis_max(pts, k)).collect();
    let m = refm::max_abs(pts) * (dim as f64).sqrt();
    let ctx = || format!("{kind:?} {}", shows(pts));
    for _ in 0..if SLOW { 1 } else { 2 } {
        let t = gen::param(&mut c.rng);
        let want = refm::bezier(pts, t);
        for (name, p) in o.evals(t) {
            near(c, name, &p, &want, |k| lin(ax[k]), || format!("t={t:?} {}", ctx()));
        }
        let k = c.rng.below(dim);
        if let Some(x) = o.axis(t, k) {
            near1(c, "axis", x, want[k], lin(ax[k]), || format!("axis {k} t={t:?} {}", ctx()));
        }
        let (a, b) = o.split(t);
        let u = gen::param(&mut c.rng);
        let (td, ud) = (refm::dd(t), refm::dd(u));
        near(c, "split-left", &a.eval(u), &refm::bezier_at(pts, td * ud), |k| 4.0 * lin(ax[k]), || format!("t={t:?} u={u:?} {}", ctx()));
        near(c, "split-right", &b.eval(u), &refm::bezier_at(pts, td + (refm::dd(1.0) - td) * ud), |k| 4.0 * lin(ax[k]), || format!("t={t:?} u={u:?} {}", ctx()));
        if !(kind == Kind::Bez && n < 2) {
            if let Some(d) = o.derivative() {
                let want = refm::bezier_deriv(pts, 1, t);
                let gain = refm::deriv_gain(n - 1, 1);
                near(c, "derivative", &d.eval(t), &want, |k| gain * lin(ax[k]), || format!("t={t:?} {}", ctx()));
            }
        }
    }
    if let Some(b) = o.bbox() {
        for (k, b) in b.iter().enumerate() {
            let (lo, hi, _) = refm::extent(pts, k);
            near1(c, "box", b.0, lo, lin(ax[k]) + 16.0 * EPS, ctx);
            near1(c, "box", b.1, hi, lin(ax[k]) + 16.0 * EPS, ctx);
        }
    }
    let steps = gen::steps(&mut c.rng, if SLOW { 6 } else { 50 });
    if let Some(l) = o.arclen(steps) {
        near1(c, "arclen", l, refm::chords(pts, steps), (RT + 4.0 * steps as f64 * EPS * n as f64) * m + TINY_SQ, || format!("arclen({steps}) {}", ctx()));
    }
    if !SLOW || (n * dim <= 8 && c.rng.chance(0.5)) {
        let t = gen::param(&mut c.rng);
        let q: Co = refm::bezier(pts, t).iter().map(|x| *x as F).collect();
        if let Some(g) = o.distance(&q) {
            // the query is on the curve: within half a step of the fine search at the largest speed
            let speed: f64 = (n as f64 - 1.0) * pts.windows(2).map(|w| refm::dist(&refm::wide(&w[0]), &refm::wide(&w[1]))).fold(0.0, f64::max);
            // a segment this short may be treated as a point
            let short = if kind == Kind::Line && speed * speed < 4.0 * EPS { speed } else { 0.0 };
            c.check(g >= 0.0 && g as f64 <= short + speed / 64.0 + lin(m) + TINY_SQ, "distance", || format!("distance {g:?} from {q:?} on {}", ctx()));
        }
    }
    if let Some((a, b)) = o.start_end() {
        c.check(a == pts[0] && b == pts[n - 1], "ends", ctx);
    }
    if let Some(p) = o.ctrl() {
        c.check(p == pts, "control-points", ctx);
    }
    let e = o.copy().eval(1.0);
    near(c, "copy", &e, &refm::wide(&pts[n - 1]), |k| lin(ax[k]), ctx);
    let tol = (m * c.rng.unit()) as F;
    let _ = o.is_linear(tol);
    let _ = o.is_a_point(tol);
    if let Some(b) = o.baseline() {
        near(c, "baseline", &b.eval(0.0), &refm::wide(&pts[0]), |k| lin(ax[k]), ctx);
    }
}
fn hostile_requests(c: &mut Case, o: &dyn DynCurve, pts: &[Co], dim: usize) {
    for k in [dim, dim + 1, usize::MAX] {
        let t = gen::param(&mut c.rng);
        if let Some(r) = o.axis_raw(t, k) {
            c.cover("axis:beyond");
            c.check(r.is_err(), "axis-beyond", || format!("axis({t:?}, {k}) returned {r:?} for {}", shows(pts)));
        }
        if o.dd(0.5, 0).is_some() {
            let r = lib_try("dd", || o.dd(t, k));
            c.check(r.is_err(), "axis-beyond", || format!("dd({t:?}, {k}) returned {r:?} for {}", shows(pts)));
        }
    }
    let t = invalid_t(&mut c.rng);
    c.cover("parameter:invalid");
    let mut qs = vec![Q::Evals(t), Q::Split(t, 0.5), Q::Split(0.5, t), Q::Axis(t, 0), Q::Dd(t, dim - 1), Q::Deriv(t), Q::Baseline(t), Q::Linear(t), Q::IsPoint(t), Q::Arclen(0)];
    c.cover("steps:0");
    if !SLOW || c.rng.chance(0.2) {
        qs.push(Q::Dist(vec![t; dim]));
    }
    if SLOW {
        let i = c.rng.below(qs.len());
        qs = vec![qs.swap_remove(i), Q::Arclen(0)];
    }
    for q in qs {
        attempt(c, || ask(o, &q));
    }
}
fn spline(c: &mut Case) {
    c.cover("bspline");
    let s = loop {
        let s = gen::spline_case(c, 0, 1, if IS32 { 6 } else { 30 }, &splines::SPLINES);
        if !SLOW || (s.d <= 4 && s.dim <= 3 && s.c() <= 8) {
            break s;
        }
    };
    let (d, cc) = (s.d, s.c());
    let sp = match splines::spline(d, &s.knots, &s.pts).expect("instantiated") {
        Ok(x) => x,
        Err(e) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
    };
    let (a, b) = s.domain();
    c.check(sp.domain() == (a, b), "domain", || format!("{:?} of {}", sp.domain(), s.show()));
    c.check(sp.knots() == s.knots && sp.ctrl() == s.pts, "accessors", || s.show());
    let mut ts = gen::spline_params(&mut c.rng, &s, 1);
    while ts.len() > if SLOW { 4 } else { 12 } {
        let i = c.rng.below(ts.len());
        ts.swap_remove(i);
    }
    for t in &ts {
        let span = refm::span(&s.knots, d, cc, *t).expect("inside");
        let want = refm::spline_at(&s.knots, &s.pts, d, *t).unwrap();
        match sp.eval(*t) {
            Ok(p) => {
                near(c, "spline-value", &p, &want, |k| lin(refm::active_max(&s.pts, d, span, k)), || format!("t={t:?} {}", s.show()));
            }
            Err(e) => c.fail("spline-value", format!("eval({t:?}) = {e:?}: {}", s.show())),
        }
    }
    for t in [gen::next_down(a), gen::next_up(b), F::NAN, F::INFINITY, F::NEG_INFINITY] {
        c.cover("parameter:invalid");
        match sp.try_eval(t) {
            Ok(Err(_)) => c.eval1(),
            r => c.check(false, "outside", || format!("eval({t:?}) = {r:?} of {}", s.show())),
        }
    }
    let n = gen::steps(&mut c.rng, if SLOW { 4 } else { 40 });
    let m = refm::max_abs(&s.pts) * (s.dim as f64).sqrt();
    let l = sp.arclen(n) as f64;
    let poly = refm::polygon(&s.pts);
    // (steps of a few units in the last place of the knots need not come out in order)
    let ordered = b as f64 - a as f64 >= 16.0 * n as f64 * EPS * (a as f64).abs().max((b as f64).abs());
    c.check(l >= 0.0 && (!ordered || l <= poly + RT * m + n as f64 * 8.0 * EPS * m * (d + 1) as f64 + TINY_SQ), "spline-arclen", || format!("arclen({n}) = {l:e} for a polygon of {poly:e}: {}", s.show()));
    c.cover("steps:0");
    attempt(c, || Some(vec![sp.arclen(0)]));
    // derivatives of every order, inside and outside the domain
    let mut x = sp.derivative();
    while let Some(y) = x {
        c.check(y.domain() == (a, b), "derivative-domain", || format!("{:?}: {}", y.domain(), s.show()));
        for t in [a, b, ts[0], F::NAN, gen::next_up(b)] {
            let r = y.try_eval(t);
            c.check(r.is_ok() && (t >= a && t <= b) == matches!(r, Ok(Ok(_))), "derivative-eval", || format!("at {t:?}: {r:?} of {}", s.show()));
        }
        x = y.derivative();
    }
    // malformed definitions
    c.cover("knots:rejected");
    let mut bad = s.knots.clone();
    let i = c.rng.below(bad.len());
    bad[i] = F::NAN;
    let r = splines::spline(d, &bad, &s.pts).map(|r| r.map(|_| ()));
    c.check(matches!(r, Some(Err(_))), "nan-knot", || format!("knots {bad:?} gave {r:?}"));
    c.nontrivial(hash_f(hash_ps(1000 + d as u64, &s.pts), &s.knots));
    if c.want_sample() {
        c.sample(s.show());
    }
}
fn point(c: &mut Case) {
    c.cover("point");
    match c.rng.below(6) {
        0 => points::<1>(c),
        1 => points::<2>(c),
        2 => points::<3>(c),
        3 => points::<4>(c),
        4 => points::<7>(c),
        _ => points::<16>(c),
    }
}
fn points<const N: usize>(c: &mut Case) {
    let mut a = [0.0 as F; N];
    let mut b = [0.0 as F; N];
    for i in 0..N {
        a[i] = c.rng.range(-99, 99) as F;
        b[i] = c.rng.range(-99, 99) as F;
    }
    let (p, q) = (PointN::new(a), PointN::new(b));
    let s = c.rng.range(-9, 9) as F;
    let all = lib_call("PointN::ops", || ((p + q), (p - q), (p * s), (p + s), (p - s)));
    let mut m = all.0;
    for x in lib_call("PointN::iter_mut", || (&mut m).into_iter()) {
        *x -= 1.0;
    }
    for i in 0..N {
        let got = lib_call("PointN::axis", || [all.0.axis(i), all.1.axis(i), all.2.axis(i), all.3.axis(i), all.4.axis(i), m.axis(i)]);
        let want = [a[i] + b[i], a[i] - b[i], a[i] * s, a[i] + s, a[i] - s, a[i] + b[i] - 1.0];
        c.check(got == want, "point", || format!("component {i}: {got:?} instead of {want:?}"));
    }
    let sq = lib_call("PointN::squared_length", || p.squared_length());
    c.check(sq == a.iter().map(|x| x * x).sum::<F>(), "point", || format!("squared length {sq:?} of {a:?}"));
    let v: Vec<F> = IntoIterator::into_iter(p).collect();
    c.check(v == a && (p == p) && ((p == q) == (a == b)), "point", || format!("{v:?} from {a:?}"));
    for i in [N, N + 1, usize::MAX] {
        c.cover("axis:beyond");
        let r = lib_try("PointN::axis", || p.axis(i));
        c.check(r.is_err(), "axis-beyond", || format!("axis({i}) of a point of dimension {N} returned {r:?}"));
    }
    c.nontrivial(hash_f(N as u64, &[a, b].concat()));
}
/// the same through a user's point type
fn user(c: &mut Case) {
    let (dim, sizes) = *c.rng.pick(&PROBE_N);
    let n = if SLOW { 2 + c.rng.below(3) } else { (*c.rng.pick(sizes)).max(2) };
    let (pts, _) = gen::points(&mut c.rng, dim, n, 6);
    let mut ks = kinds_for(dim, n);
    ks.retain(|k| *k != Kind::Bez);
    ks.push(Kind::Bez);
    let kind = *c.rng.pick(&ks);
    if let Some(o) = make_probe(kind, &pts) {
        c.cover("user-type");
        reference(c, &*o, &pts, kind);
        hostile_requests(c, &*o, &pts, dim);
        c.nontrivial(hash_ps(100 + kind as u64, &pts));
    } else {
        curve(c);
    }
}
