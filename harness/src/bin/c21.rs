//! C21: a user-side point type (own scalar type, no iteration over coordinates) gives the same results.
use harness::{chk::*, curves::*, gen, hash_ps, mon::*, probe, refm, shows, splines, workout::*, Co, EPS, F, IS32, RT, TINY_SQ};

fn main() {
    let spec = Spec {
        prop: "C21",
        quick: 360_000,
        mult: 40,
        rule: "random curves (all types; dimension 1, 2, 3, 5, 9; up to 12 points) and B-splines (degree 0..10) built from the provided point type and from an instrumented user type with the same coordinates; every operation asked of both and compared; distinct by type and points, non-trivial when the points are not all equal",
        need: &[("kind:line", 500), ("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500), ("kind:segment-line", 300), ("kind:segment-quadratic", 300), ("kind:segment-cubic", 300), ("bspline", 2000), ("q:split", 1000), ("q:derivative", 1000), ("q:axis", 1000), ("q:dd", 1000), ("q:bbox", 1000), ("q:arclen", 1000), ("q:distance", 1000), ("q:is_linear", 1000), ("q:is_a_point", 1000), ("q:baseline", 1000), ("sq:eval", 1000), ("sq:arclen", 300), ("sq:derivative", 300), ("axis-reads", 10000)],
        no_alloc: false,
    };
    drive(spec, |c| if c.rng.chance(0.3) { spline(c) } else { curve(c) });
}
fn curve(c: &mut Case) {
    let (dim, sizes) = *c.rng.pick(&PROBE_N);
    let n = match c.rng.below(4) {
        0 => 2,
        1 => 3,
        2 => 4,
        _ => *c.rng.pick(sizes),
    };
    let (pts, class) = gen::points(&mut c.rng, dim, n, if IS32 { 5 } else { 40 });
    c.cover(class);
    let mut kinds = kinds_for(dim, n);
    if !kinds.contains(&Kind::Bez) {
        kinds.push(Kind::Bez);
    }
    let kind = *c.rng.pick(&kinds);
    if kind == Kind::Bez && !has_bez(dim, n) {
        // more points than the provided type is instantiated with: compare with the reference instead
        return big(c, &pts);
    }
    c.cover(gen::kind_name(kind));
    let a = make(kind, &pts);
    let b = make_probe(kind, &pts).expect("instantiated");
    let m = refm::max_abs(&pts) * (dim as f64).sqrt();
    for q in all(&mut c.rng, dim, m, 60) {
        let x = ask(&*a, &q);
        if x.is_none() {
            continue;
        }
        c.cover(q.name());
        probe::arm(u64::MAX);
        let y = ask(&*b, &q);
        let (_, reads, top) = probe::disarm();
        if reads > 0 {
            c.cover("axis-reads");
        }
        c.check(top <= dim, "axis-range", || format!("axis {} of a {dim}-dimensional point was read: {q:?} of {kind:?} {}", top - 1, shows(&pts)));
        let (x, y) = (x.unwrap(), y.unwrap());
        let what = || format!("{q:?} of {kind:?} {} = {x:?} but {y:?} for the user type", shows(&pts));
        if let Q::Linear(t) | Q::IsPoint(t) = &q {
            // a decision may only differ within rounding of its boundary
            if x != y {
                let edge = [1.0 - 1e-4, 1.0 + 1e-4].iter().any(|g| {
                    let q2 = if matches!(q, Q::Linear(_)) { Q::Linear(*t * *g as F) } else { Q::IsPoint(*t * *g as F) };
                    ask(&*a, &q2) != Some(x.clone())
                });
                let chord = refm::dist(&refm::wide(&pts[0]), &refm::wide(&pts[n - 1]));
                c.check(edge || chord < 4.0 * EPS.sqrt(), "decision", what);
            } else {
                c.eval1();
            }
            continue;
        }
        let tol = match &q {
            Q::Dist(p) => {
                let mq = m.max(p.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs())) * (dim as f64).sqrt());
                let speed = if kind == Kind::Line { 0.0 } else { refm::Search::new(&pts, p).max_speed() };
                4.0 * RT * mq + TINY_SQ + speed / 500.0
            }
            Q::Arclen(k) => (2.0 * RT + 16.0 * *k as f64 * EPS * n as f64) * m + TINY_SQ,
            Q::Bbox => 2.0 * lin(m) + 32.0 * EPS,
            Q::Deriv(_) | Q::Dd(..) => 4.0 * (n * n) as f64 * lin(m),
            _ => 2.0 * lin(m),
        };
        let w: Vec<f64> = x.iter().map(|v| *v as f64).collect();
        near(c, "result", &y, &w, |_| tol, what);
    }
    if pts.iter().any(|p| p != &pts[0]) {
        c.nontrivial(hash_ps(kind as u64, &pts));
    }
    if c.want_sample() {
        c.sample(format!("{kind:?} {}", shows(&pts)));
    }
}
fn big(c: &mut Case, pts: &[Co]) {
    c.cover("beyond-provided");
    let b = make_probe(Kind::Bez, pts).expect("instantiated");
    let t = gen::param(&mut c.rng);
    near(c, "result", &b.eval(t), &refm::bezier(pts, t), |k| lin(refm::axis_max(pts, k)), || format!("user-type curve at {t:?} {}", shows(pts)));
    let s = gen::param(&mut c.rng);
    let (x, y) = b.split(t);
    let (tf, sf) = (t as f64, s as f64);
    let at = |u: f64| refm::bezier_at(pts, harness::dd::DD::new(u));
    let g = refm::deriv_gain(pts.len() - 1, 1) * harness::EPS;
    near(c, "result", &x.eval(s), &at(sf * tf), |k| (RT + g) * refm::axis_max(pts, k) + TINY_SQ, || format!("left part of the split at {t:?} at {s:?} {}", shows(pts)));
    near(c, "result", &y.eval(s), &at(tf + sf * (1.0 - tf)), |k| (RT + g) * refm::axis_max(pts, k) + TINY_SQ, || format!("right part of the split at {t:?} at {s:?} {}", shows(pts)));
}
fn spline(c: &mut Case) {
    let s = gen::spline_case(c, 0, 1, if IS32 { 4 } else { 30 }, &splines::PROBE_SPLINES);
    c.cover("bspline");
    let b = match splines::probe_spline(s.d, &s.knots, &s.pts).expect("instantiated") {
        Ok(x) => x,
        Err(e) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
    };
    // the provided type, or the reference where it is not instantiated
    let a = splines::spline(s.d, &s.knots, &s.pts).map(|r| r.expect("accepted for the user type"));
    for _ in 0..8 {
        let q = sdraw(&mut c.rng, &s, 40);
        c.cover(q.name());
        probe::arm(u64::MAX);
        let y = sask(&*b, &q);
        let (_, _, top) = probe::disarm();
        c.check(top <= s.dim, "axis-range", || format!("axis {} was read: {q:?} of {}", top - 1, s.show()));
        match &a {
            Some(a) => {
                let x = sask(&**a, &q);
                // both run the same sequence of operations of the trait
                let same = match (&x, &y) {
                    (Some(x), Some(y)) if x.len() == y.len() => {
                        let m = x.iter().fold(0.0f64, |m, v| if v.is_finite() { m.max((*v as f64).abs()) } else { m });
                        x.iter().zip(y).all(|(u, v)| u == v || (u.is_nan() && v.is_nan()) || (*u as f64 - *v as f64).abs() <= 4.0 * RT * m)
                    }
                    (None, None) => true,
                    _ => false,
                };
                c.check(same, "spline", || format!("{q:?} = {x:?} but {y:?} for the user type: {}", s.show()));
            }
            None => {
                if let SQ::Eval(t) = q {
                    c.cover("beyond-provided");
                    let i = match refm::span(&s.knots, s.d, s.c(), t) {
                        Some(i) => i,
                        None => {
                            c.check(y.as_ref().map(|v| v[0]) == Some(err_code(stroke::bspline::BSplineError::KnotDomainViolation)), "spline", || format!("t={t:?} outside the domain gives {y:?}: {}", s.show()));
                            continue;
                        }
                    };
                    let want = refm::spline_at(&s.knots, &s.pts, s.d, t).unwrap();
                    near(c, "spline", &y.unwrap(), &want, |k| lin(refm::active_max(&s.pts, s.d, i, k)), || format!("t={t:?} {}", s.show()));
                }
            }
        }
    }
    c.nontrivial(hash_ps(1000 + s.d as u64, &s.pts));
    if c.want_sample() {
        c.sample(s.show());
    }
}
