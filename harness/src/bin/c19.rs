//! C19: independence of the scale and offset of the knots.
use harness::{chk::*, gen, hash_f, hash_ps, mon::*, refm, splines, EPS, F, IS32, RT, TINY, TINY_SQ};

fn main() {
    let spec = Spec {
        prop: "C19",
        quick: 480_000,
        mult: 40,
        rule: "random accepted splines with dyadic knots under exactly representable affine maps (scale 2^e, shift a multiple of the grid up to the largest exact magnitude), under inexact maps (conditioned tolerance), and mirrored; evaluation, acceptance at and around the domain ends, all derivatives and arc length compared; distinct by knots, points and map, non-trivial when the map is not the identity",
        need: &[("map:exact", 5000), ("map:inexact", 2000), ("map:mirror", 2000), ("scale:small", 500), ("scale:large", 500), ("shift:large", 500), ("accept:inside", 10000), ("accept:outside", 10000), ("op:derivative", 5000), ("op:arclen", 2000), ("ends:clamped", 500), ("ends:unclamped", 500), ("ends:clamped-start", 500), ("ends:clamped-end", 500)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let mode = c.rng.below(3);
        let mut s = gen::spline_case(c, 0, if mode == 2 { 0 } else { 1 }, if IS32 { 6 } else { 40 }, &splines::SPLINES);
        let (d, cc, dim) = (s.d, s.c(), s.dim);
        // dyadic knots: multiples of 1/16 with at most 12 bits
        let span = s.knots[s.knots.len() - 1] as f64 - s.knots[0] as f64;
        let k0 = s.knots[0] as f64;
        let big = *c.rng.pick(&[8.0, 32.0, 100.0]);
        if mode != 1 {
            for x in s.knots.iter_mut() {
                *x = (((*x as f64 - k0) / span * big * 16.0).round() / 16.0 - if big == 32.0 { 16.0 } else { 0.0 }) as F;
            }
        }
        if gen::max_mult(&s.knots) > d + 1 || !(s.knots[d] < s.knots[cc]) || (mode == 2 && gen::interior_mult(&s.knots, d, cc) > d.max(1)) {
            return;
        }
        let sp = match splines::spline(d, &s.knots, &s.pts).expect("instantiated") {
            Ok(x) => x,
            Err(e) => {
                c.fail("construct", format!("{e:?}: {}", s.show()));
                return;
            }
        };
        let (a, b) = s.domain();
        // parameters on a dyadic grid inside and just outside the domain
        let mut ts: Vec<F> = vec![a, b];
        ts.extend(s.knots.iter().copied());
        for _ in 0..8 {
            let t = a as f64 + (b as f64 - a as f64) * (c.rng.unit() * 1.2 - 0.1);
            ts.push(if mode == 1 { t as F } else { ((t * 256.0).round() / 256.0) as F });
        }
        if mode == 2 {
            // mirror: exact
            c.cover("map:mirror");
            let shift = c.rng.range(-8, 8) as F;
            let kn: Vec<F> = s.knots.iter().rev().map(|x| shift - *x).collect();
            let mut pts = s.pts.clone();
            pts.reverse();
            let sm = match splines::spline(d, &kn, &pts).expect("instantiated") {
                Ok(x) => x,
                Err(e) => {
                    c.fail("construct", format!("mirrored: {e:?}: {}", s.show()));
                    return;
                }
            };
            c.check(sm.domain() == (shift - b, shift - a), "mirror-domain", || format!("mirrored domain {:?}: {}", sm.domain(), s.show()));
            for t in &ts {
                if d == 0 && s.knots.contains(t) {
                    continue;
                }
                match (sp.eval(*t), sm.eval(shift - *t)) {
                    (Ok(p), Ok(q)) => {
                        let i = refm::span(&s.knots, d, cc, *t).unwrap();
                        // at a knot the mirrored curve is evaluated in the neighbouring span
                        same(c, "mirror", &q, &p, |k| lin(refm::active_max(&s.pts, d, i, k).max(refm::axis_max(&s.pts, k))), || format!("t={t:?} mirrored about {shift:?}/2: {}", s.show()));
                    }
                    (Err(x), Err(y)) => c.check(x == y, "mirror-accept", || format!("{x:?} and {y:?} at t={t:?}: {}", s.show())),
                    (x, y) => c.fail("mirror-accept", format!("{x:?} but mirrored {y:?} at t={t:?}: {}", s.show())),
                }
            }
            let n = 1 + c.rng.below(40);
            let m = refm::max_abs(&s.pts) * (dim as f64).sqrt();
            if d > 0 {
                c.cover("op:arclen");
                let speed = refm::deriv_bound_all(&s.knots, &s.pts, d, 1) * (dim as f64).sqrt();
                let tol = RT * m + n as f64 * (16.0 * EPS * 120.0 * speed + 8.0 * EPS * m * (d + 1) as f64) + TINY_SQ;
                near1(c, "mirror-arclen", sm.arclen(n), sp.arclen(n) as f64, tol, || format!("arclen({n}) mirrored: {}", s.show()));
            }
            c.nontrivial(hash_f(hash_ps(d as u64, &s.pts), &kn));
            return;
        }
        let (scale, shift): (f64, f64);
        if mode == 0 {
            c.cover("map:exact");
            let e = c.rng.range(if IS32 { -40 } else { -300 }, if IS32 { 40 } else { 300 }) / c.rng.range(1, 6);
            scale = 2f64.powi(e as i32);
            // shift: a multiple of the scaled grid, at most 2^20 (f64) or 2^7 (f32) times the knots' magnitude
            let mag = 2f64.powi(c.rng.range(0, if IS32 { 7 } else { 36 }) as i32);
            shift = if c.rng.chance(0.2) { 0.0 } else { (c.rng.sym() * mag).round() * scale };
            if shift.abs() > 64.0 * scale {
                c.cover("shift:large");
            }
        } else {
            c.cover("map:inexact");
            scale = 10f64.powf(c.rng.sym() * 6.0);
            shift = c.rng.sym() * 10f64.powf(c.rng.sym() * 3.0) * scale * span.abs();
        }
        if scale < 1e-6 {
            c.cover("scale:small");
        }
        if scale > 1e6 {
            c.cover("scale:large");
        }
        let map = |x: F| -> F { (x as f64 * scale + shift) as F };
        let kn: Vec<F> = s.knots.iter().map(|x| map(*x)).collect();
        if mode == 0 && kn.iter().zip(&s.knots).any(|(y, x)| (*y as f64 - shift) / scale != *x as f64) {
            return; // not exact after all
        }
        if mode == 1 && (0..kn.len() - 1).any(|i| (kn[i] == kn[i + 1]) != (s.knots[i] == s.knots[i + 1])) {
            return; // rounding merged knots: a different spline
        }
        let sm = match splines::spline(d, &kn, &s.pts).expect("instantiated") {
            Ok(x) => x,
            Err(e) => {
                c.fail("construct", format!("mapped by {scale:e} x + {shift:e}: {e:?}: {}", s.show()));
                return;
            }
        };
        let ctx = |t: F| format!("t={t:?} mapped by {scale:e} x + {shift:e}: {}", s.show());
        c.check(sm.domain() == (map(a), map(b)), "domain", || format!("mapped domain {:?}: {}", sm.domain(), ctx(a)));
        let kmax = kn.iter().fold(0.0f64, |m, x| m.max((*x as f64).abs())) + s.knots.iter().fold(0.0f64, |m, x| m.max((*x as f64).abs())) * scale;
        for t in &ts {
            let t = *t;
            let u = map(t);
            if mode == 0 {
                if (u as f64 - shift) / scale != t as f64 {
                    continue;
                }
                match (sp.eval(t), sm.eval(u)) {
                    (Ok(p), Ok(q)) => {
                        c.cover("accept:inside");
                        let i = refm::span(&s.knots, d, cc, t).unwrap();
                        same(c, "value", &q, &p, |k| lin(refm::active_max(&s.pts, d, i, k)), || ctx(t));
                    }
                    (Err(x), Err(y)) => {
                        c.cover("accept:outside");
                        c.check(x == y, "accept", || format!("{x:?} and {y:?}: {}", ctx(t)))
                    }
                    (x, y) => c.fail("accept", format!("{x:?} but mapped {y:?}: {}", ctx(t))),
                }
            } else {
                // inexact: compare inside spans only, relative to how far rounding moves the parameter
                let i = match refm::span(&s.knots, d, cc, t) {
                    Some(i) => i,
                    None => continue,
                };
                if !(u >= kn[i] && u < kn[i + 1]) || s.knots.contains(&t) {
                    continue;
                }
                match (sp.eval(t), sm.eval(u)) {
                    (Ok(p), Ok(q)) => {
                        // every knot and the parameter moves by at most kmax*EPS: a change of at most the derivative
                        // bound (in both knots and parameter) times that
                        let w = (0..d.max(1)).map(|r| (d as f64) * kmax * EPS / min_den(&kn, i, d, r)).sum::<f64>();
                        same(c, "value-inexact", &q, &p, |k| (RT + 64.0 * w) * refm::active_max(&s.pts, d, i, k) + TINY, || ctx(t));
                    }
                    (x, y) => c.fail("accept-inexact", format!("{x:?} but mapped {y:?}: {}", ctx(t))),
                }
            }
        }
        // the ends of the mapped domain and their neighbours
        let (ma, mb) = (map(a), map(b));
        for (t, inside) in [(ma, true), (mb, true), (gen::next_up(ma), true), (gen::next_down(mb), true), (gen::next_down(ma), false), (gen::next_up(mb), false)] {
            let inside = inside && t <= mb && t >= ma;
            c.cover(if inside { "accept:inside" } else { "accept:outside" });
            c.check(sm.eval(t).is_ok() == inside, "accept-end", || format!("parameter {t:?} of the domain {:?}: {:?}: {}", (ma, mb), sm.eval(t), ctx(a)));
        }
        if mode == 0 {
            // derivatives scale with 1/scale per order
            let (mut x, mut y) = (sp.derivative(), sm.derivative());
            let mut j = 0;
            while let (Some(p), Some(q)) = (&x, &y) {
                j += 1;
                let f = scale.powi(j);
                // derivatives outside the range of the scalar say nothing
                let worst = refm::deriv_bound_any(&s.knots, &s.pts, d, j as usize) / f;
                if !(worst < if IS32 { 1e36 } else { 1e290 }) || worst < 1e6 * TINY || !(f.is_normal()) || f > 1e280 {
                    break;
                }
                for t in &ts {
                    let u = map(*t);
                    if (u as f64 - shift) / scale != *t as f64 {
                        continue;
                    }
                    let i = match refm::span(&s.knots, d, cc, *t) {
                        Some(i) => i,
                        None => continue,
                    };
                    c.cover("op:derivative");
                    match (p.eval(*t), q.eval(u)) {
                        (Ok(v), Ok(w)) => {
                            let want: Vec<f64> = v.iter().map(|x| *x as f64 / f).collect();
                            near(c, "derivative", &w, &want, |k| RT * refm::deriv_bound(&s.knots, &s.pts, d, j as usize, i, k) / f + TINY, || format!("derivative {j}: {}", ctx(*t)));
                        }
                        (v, w) => c.fail("derivative", format!("derivative {j}: {v:?} but mapped {w:?}: {}", ctx(*t))),
                    }
                }
                let nx = p.derivative();
                let ny = q.derivative();
                x = nx;
                y = ny;
            }
            if d > 0 && gen::interior_mult(&s.knots, d, cc) <= d {
                c.cover("op:arclen");
                let n = 1 + c.rng.below(40);
                let m = refm::max_abs(&s.pts) * (dim as f64).sqrt();
                let speed = refm::deriv_bound_all(&s.knots, &s.pts, d, 1) / scale * (dim as f64).sqrt();
                let tol = RT * m + n as f64 * (16.0 * EPS * kmax * speed + 8.0 * EPS * m * (d + 1) as f64) + TINY_SQ;
                near1(c, "arclen", sm.arclen(n), sp.arclen(n) as f64, tol, || format!("arclen({n}): {}", ctx(a)));
            }
        }
        if scale != 1.0 || shift != 0.0 {
            c.nontrivial(hash_f(hash_f(hash_ps(d as u64, &s.pts), &s.knots), &kn));
        }
        if c.want_sample() {
            c.sample(ctx(a));
        }
    });
}
/// smallest knot difference that level r of the evaluation in span i divides by
fn min_den(kn: &[F], i: usize, d: usize, r: usize) -> f64 {
    let q = d.max(1) - r; // number of spans covered
    let mut m = f64::INFINITY;
    for j in 0..q {
        let lo = i as isize - j as isize;
        let hi = lo + q as isize;
        if lo >= 0 && (hi as usize) < kn.len() {
            let w = kn[hi as usize] as f64 - kn[lo as usize] as f64;
            if w > 0.0 {
                m = m.min(w);
            }
        }
    }
    m
}
