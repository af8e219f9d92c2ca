//! C18: arc length of B-splines.
use harness::{chk::*, dd::DD, gen, hash_f, hash_ps, mon::*, refm, splines, Co, EPS, F, IS32, RT, TINY_SQ};

fn main() {
    let spec = Spec {
        prop: "C18",
        quick: 480_000,
        mult: 40,
        rule: "random accepted splines with knot multiplicity at most D+1 (any clamping, domain length and offset, dimension) x step count 1..150 (thorough: 2000), against the sum of reference chords over the domain, the chord and polygon bounds and the length of the translated spline; samples that land within rounding of a discontinuity are not compared; distinct by knots, points and step count, non-trivial when the polygon has positive length",
        need: &[("ends:clamped", 500), ("ends:clamped-start", 500), ("ends:clamped-end", 500), ("ends:unclamped", 500), ("compared", 10000), ("n:1", 100), ("n>=50", 500), ("domain:long", 500), ("domain:short", 500), ("domain:offset", 500), ("translated", 2000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let s = gen::spline_case(c, 0, 1, if IS32 { 6 } else { 40 }, &splines::SPLINES);
        let (d, cc, dim) = (s.d, s.c(), s.dim);
        let sp = match splines::spline(d, &s.knots, &s.pts).expect("instantiated") {
            Ok(x) => x,
            Err(e) => {
                c.fail("construct", format!("{e:?}: {}", s.show()));
                return;
            }
        };
        let (a, b) = s.domain();
        let (af, bf) = (a as f64, b as f64);
        let max = if c.thorough && c.rng.chance(0.1) { 2000 } else { 150 };
        let n = gen::steps(&mut c.rng, max);
        match n {
            1 => c.cover("n:1"),
            x if x >= 50 => c.cover("n>=50"),
            _ => {}
        }
        if bf - af > 2.0 {
            c.cover("domain:long");
        }
        if bf - af < 0.5 {
            c.cover("domain:short");
        }
        if af.abs() > 1e-3 * (bf - af) {
            c.cover("domain:offset");
        }
        let kmax = af.abs().max(bf.abs());
        let m = refm::max_abs(&s.pts) * (dim as f64).sqrt();
        let speed = refm::deriv_bound_all(&s.knots, &s.pts, d.max(1), if d == 0 { 0 } else { 1 }) * (dim as f64).sqrt() * if d == 0 { 0.0 } else { 1.0 };
        let tol = |m: f64| RT * m + n as f64 * (8.0 * EPS * kmax * speed + 8.0 * EPS * m * (d + 1) as f64) + TINY_SQ;
        let ctx = || format!("arclen({n}) of {}", s.show());
        // parameters of the n+1 samples
        let ts: Vec<F> = (0..=n)
            .map(|i| {
                let t = DD::new(af) + (DD::new(bf) - DD::new(af)) * (DD::new(i as f64) / DD::new(n as f64));
                (t.f() as F).max(a).min(b)
            })
            .collect();
        // a jump (knot of multiplicity D+1 inside the domain) makes samples at it sensitive to the last bit of t
        let jump: Vec<f64> = (d + 1..cc).map(|i| s.knots[i]).filter(|x| *x > a && *x < b && s.knots.iter().filter(|y| *y == x).count() > d).map(|x| x as f64).collect();
        let risky = ts.iter().any(|t| jump.iter().any(|x| (*t as f64 - x).abs() <= 16.0 * EPS * kmax));
        let got = sp.arclen(n);
        if !risky {
            c.cover("compared");
            let pts: Vec<Vec<f64>> = ts.iter().map(|t| refm::spline_at(&s.knots, &s.pts, d, *t).unwrap()).collect();
            let want: f64 = pts.windows(2).map(|w| refm::dist(&w[0], &w[1])).sum();
            near1(c, "chords", got, want, tol(m), ctx);
            let chord = refm::dist(&pts[0], &pts[n]);
            c.check(got as f64 >= chord - tol(m), "lower", || format!("{got:?} is below the distance {chord:e} of the ends: {}", ctx()));
        }
        let poly = refm::polygon(&s.pts);
        // (steps of a few units in the last place of the knots need not come out in order)
        let ordered = bf - af >= 16.0 * n as f64 * EPS * kmax;
        c.check(got as f64 >= -tol(m) && (!ordered || got as f64 <= poly + tol(m)), "upper", || format!("{got:?} is above the polygon length {poly:e}: {}", ctx()));
        if c.rng.chance(0.3) {
            c.cover("translated");
            let v: Vec<f64> = (0..dim).map(|_| c.rng.sym() * 10.0 * m).collect();
            let moved: Vec<Co> = s.pts.iter().map(|p| p.iter().zip(&v).map(|(x, y)| (*x as f64 + y) as F).collect()).collect();
            if let Ok(sm) = splines::spline(d, &s.knots, &moved).expect("instantiated") {
                let g2 = sm.arclen(n);
                let spd2 = speed * 12.0;
                let t2 = tol(12.0 * m) + n as f64 * 8.0 * EPS * kmax * spd2 + n as f64 * 4.0 * EPS * 12.0 * m;
                near1(c, "translation", g2, got as f64, t2, || format!("translated by {v:?}: {}", ctx()));
            }
        }
        if poly > 0.0 {
            c.nontrivial(hash_f(hash_ps(n as u64, &s.pts), &s.knots));
        }
        if c.want_sample() {
            c.sample(format!("{} = {got:?}", ctx()));
        }
    });
}
