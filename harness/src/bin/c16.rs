//! C16: end interpolation, hull, locality and continuity of B-splines.
use harness::{chk::*, gen, hash_f, hash_ps, mon::*, refm, splines, Co, F, IS32, RT, TINY};

fn main() {
    let spec = Spec {
        prop: "C16",
        quick: 720_000,
        mult: 40,
        rule: "random accepted splines with knot multiplicity at most D+1 at every knot, neighbours of knots, inside every span and random parameters: end interpolation, per-axis and directional hull of the active points, effect of moving one control point, constant splines, jump across every knot of multiplicity at most D; distinct by knots and points, non-trivial when several spans are non-empty",
        need: &[("ends:clamped", 1000), ("ends:clamped-start", 1000), ("ends:clamped-end", 1000), ("ends:unclamped", 1000), ("end-point:first", 1000), ("end-point:last", 1000), ("hull", 10000), ("moved:outside-support", 10000), ("moved:last-point", 1000), ("continuity:knot", 1000), ("continuity:multiple", 200), ("constant", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let s = gen::spline_case(c, 0, 1, if IS32 { 8 } else { 60 }, &splines::SPLINES);
        let (d, cc, dim) = (s.d, s.c(), s.dim);
        let mk = |pts: &[Co]| splines::spline(d, &s.knots, pts).expect("instantiated");
        let sp = match mk(&s.pts) {
            Ok(x) => x,
            Err(e) => {
                c.fail("construct", format!("{e:?}: {}", s.show()));
                return;
            }
        };
        let (a, b) = s.domain();
        let ts = gen::spline_params(&mut c.rng, &s, 4);
        // ends
        if s.clamped_start() {
            c.cover("end-point:first");
            match sp.eval(a) {
                Ok(p) => {
                    near(c, "first", &p, &refm::wide(&s.pts[0]), |k| lin(refm::active_max(&s.pts, d, d, k)), || format!("start: {}", s.show()));
                }
                Err(e) => c.fail("first", format!("{e:?} at the start: {}", s.show())),
            }
        }
        if s.clamped_end() {
            c.cover("end-point:last");
            match sp.eval(b) {
                Ok(p) => {
                    near(c, "last", &p, &refm::wide(&s.pts[cc - 1]), |k| lin(refm::active_max(&s.pts, d, cc - 1, k)), || format!("end: {}", s.show()));
                }
                Err(e) => c.fail("last", format!("{e:?} at the end: {}", s.show())),
            }
        }
        // hull of the active points
        let dir: Vec<f64> = (0..dim).map(|_| c.rng.sym()).collect();
        let proj = |p: &[F]| -> f64 { p.iter().zip(&dir).map(|(x, y)| *x as f64 * y).sum() };
        for t in &ts {
            let i = refm::span(&s.knots, d, cc, *t).unwrap();
            let act = &s.pts[i - d..=i];
            match sp.eval(*t) {
                Ok(p) => {
                    c.cover("hull");
                    for k in 0..dim {
                        let (lo, hi) = act.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |m, q| (m.0.min(q[k] as f64), m.1.max(q[k] as f64)));
                        let tol = lin(refm::active_max(&s.pts, d, i, k));
                        let x = p[k] as f64;
                        c.check(x >= lo - tol && x <= hi + tol, "hull", || format!("axis {k} at t={t:?} is {x:e}, active points span [{lo:e}, {hi:e}]: {}", s.show()));
                    }
                    let (lo, hi) = act.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |m, q| (m.0.min(proj(q)), m.1.max(proj(q))));
                    let m: f64 = (0..dim).map(|k| refm::active_max(&s.pts, d, i, k)).sum();
                    let (x, tol) = (proj(&p), RT * m + TINY);
                    c.check(x >= lo - tol && x <= hi + tol, "hull-direction", || format!("projection on {dir:?} at t={t:?} is {x:e} outside [{lo:e}, {hi:e}]: {}", s.show()));
                }
                Err(e) => c.fail("hull", format!("eval({t:?}) = {e:?}: {}", s.show())),
            }
        }
        // locality
        let i = match c.rng.below(3) {
            0 => 0,
            1 => cc - 1,
            _ => c.rng.below(cc),
        };
        if i == cc - 1 {
            c.cover("moved:last-point");
        }
        let mut moved = s.pts.clone();
        let m = refm::max_abs(&s.pts).max(1.0);
        for x in moved[i].iter_mut() {
            *x += (m * (1.0 + c.rng.unit())) as F * if c.rng.chance(0.5) { 100.0 } else { 1.0 };
        }
        match mk(&moved) {
            Ok(sm) => {
                for t in &ts {
                    if *t >= s.knots[i] && *t <= s.knots[i + d + 1] {
                        continue;
                    }
                    c.cover("moved:outside-support");
                    let sp_i = refm::span(&s.knots, d, cc, *t).unwrap();
                    match (sp.eval(*t), sm.eval(*t)) {
                        (Ok(p), Ok(q)) => {
                            same(c, "local", &q, &p, |k| lin(refm::active_max(&s.pts, d, sp_i, k)), || {
                                format!("t={t:?} is outside the support [{:?}, {:?}] of moved point {i}: {}", s.knots[i], s.knots[i + d + 1], s.show())
                            });
                        }
                        r => c.fail("local", format!("eval({t:?}) = {r:?}: {}", s.show())),
                    }
                }
            }
            Err(e) => c.fail("construct", format!("{e:?}: {}", s.show())),
        }
        // equal points
        if c.rng.chance(0.2) {
            c.cover("constant");
            let q = s.pts[c.rng.below(cc)].clone();
            if let Ok(sc) = mk(&vec![q.clone(); cc]) {
                for t in &ts {
                    match sc.eval(*t) {
                        Ok(p) => {
                            near(c, "constant", &p, &refm::wide(&q), |k| lin((q[k] as f64).abs()), || format!("t={t:?}, all points {q:?}: {}", s.show()));
                        }
                        Err(e) => c.fail("constant", format!("eval({t:?}) = {e:?}: {}", s.show())),
                    }
                }
            }
        }
        // continuity
        for i in d + 1..cc {
            let x = s.knots[i];
            if !(x > a && x < b) || s.knots[i - 1] == x {
                continue;
            }
            let mult = s.knots.iter().filter(|y| **y == x).count();
            if mult > d {
                continue;
            }
            c.cover("continuity:knot");
            if mult > 1 {
                c.cover("continuity:multiple");
            }
            let y = gen::next_down(x);
            let (sl, sr) = (refm::span(&s.knots, d, cc, y).unwrap(), refm::span(&s.knots, d, cc, x).unwrap());
            match (sp.eval(y), sp.eval(x)) {
                (Ok(p), Ok(q)) => {
                    let step = x as f64 - y as f64;
                    same(c, "continuity", &p, &q, |k| {
                        let dv = refm::deriv_bound(&s.knots, &s.pts, d, 1, sl, k);
                        lin(refm::active_max(&s.pts, d, sl, k).max(refm::active_max(&s.pts, d, sr, k))) + 2.0 * step * dv
                    }, || format!("jump across the knot {x:?} of multiplicity {mult}: {}", s.show()));
                }
                r => c.fail("continuity", format!("eval around {x:?} = {r:?}: {}", s.show())),
            }
        }
        if (d..cc).filter(|i| s.knots[*i] < s.knots[*i + 1]).count() > 1 {
            c.nontrivial(hash_f(hash_ps(d as u64, &s.pts), &s.knots));
        }
        if c.want_sample() {
            c.sample(format!("moved point {i} of {}", s.show()));
        }
    });
}
