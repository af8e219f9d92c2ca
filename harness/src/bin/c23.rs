//! C23: termination, absence of panics, finite results.
use harness::{curves::*, gen, hash_f, hash_ps, mon::*, probe, refm, rng::Rng, shows, splines, workout::*, Co, F, IS32};

const MAG: f64 = if IS32 { 1e12 } else { 1e100 };
/// hostile but finite coordinates
fn hostile(r: &mut Rng, dim: usize, n: usize) -> (Vec<Co>, &'static str) {
    let one = |r: &mut Rng| -> F {
        (match r.below(9) {
            0 => 0.0,
            1 => -0.0,
            2 => F::MIN_POSITIVE as f64,
            3 => F::MIN_POSITIVE as f64 * r.unit(), // subnormal
            4 => MAG * r.sym(),
            5 => 1.0,
            6 => r.sym() * 10f64.powi(r.range(if IS32 { -30 } else { -290 }, if IS32 { 11 } else { 99 }) as i32),
            7 => 1.0 + F::EPSILON as f64 * r.range(-4, 4) as f64,
            _ => r.range(-2, 2) as f64,
        }) as F
    };
    let mut p: Vec<Co> = (0..n).map(|_| (0..dim).map(|_| one(r)).collect()).collect();
    let class = match r.below(7) {
        0 => {
            let q = p[0].clone();
            p.iter_mut().for_each(|x| *x = q.clone());
            "h:coincident"
        }
        1 => {
            // collinear on a coordinate axis, with repetitions
            let k = r.below(dim);
            for q in p.iter_mut() {
                for (i, x) in q.iter_mut().enumerate() {
                    if i != k {
                        *x = 0.0
                    }
                }
            }
            "h:axis-line"
        }
        2 => {
            let z = if r.chance(0.5) { 0.0 } else { -0.0 };
            p.iter_mut().flatten().for_each(|x| *x = z);
            "h:zero"
        }
        3 => {
            // all at the largest magnitude, alternating signs
            for (i, q) in p.iter_mut().enumerate() {
                for (k, x) in q.iter_mut().enumerate() {
                    *x = if (i + k) % 2 == 0 { MAG } else { -MAG } as F;
                }
            }
            "h:alternating-max"
        }
        4 => {
            // neighbours differ by an ulp
            for i in 1..n {
                let q: Co = p[i - 1].iter().map(|x| if r.chance(0.5) { x.next_up() } else { *x }).collect();
                p[i] = q;
            }
            "h:ulp-steps"
        }
        5 => {
            let i = r.below(n);
            let j = r.below(n);
            p[i] = p[j].clone();
            "h:duplicates"
        }
        _ => "h:mixed",
    };
    (p, class)
}
fn main() {
    let spec = Spec {
        prop: "C23",
        quick: 50_000,
        mult: 40,
        rule: "hostile finite inputs (zero, subnormal, huge, ulp-separated, coincident, axis-collinear, alternating extremes; wild and almost degenerate knot vectors) through every operation with step counts 1..5000, in a build with overflow and bounds checks; results must be finite, and the arithmetic steps counted by an instrumented scalar must stay within a polynomial budget; distinct by type and points, all non-trivial",
        need: &[("h:coincident", 300), ("h:axis-line", 300), ("h:zero", 300), ("h:alternating-max", 300), ("h:ulp-steps", 300), ("h:duplicates", 300), ("h:mixed", 300), ("kind:line", 500), ("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500), ("bspline", 1000), ("knots:wild", 300), ("derivative:representable", 500), ("steps:counted", 5000), ("n:huge", 10), ("n:large", 200), ("q:distance", 1000), ("q:bbox", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| match c.rng.below(10) {
        0..=3 => curve(c),
        4..=6 => counted(c),
        7 | 8 => spline(c),
        _ => spline_counted(c),
    });
}
fn finite(c: &mut Case, v: &[F], what: impl Fn() -> String) {
    c.check(v.iter().all(|x| x.is_finite()), "not-finite", || format!("{v:?}: {}", what()));
}
fn nsteps(r: &mut Rng, points: usize) -> usize {
    if points <= 12 && r.chance(if points <= 4 { 0.005 } else { 0.0005 }) {
        // no counter of 16 bits can hold them
        return *r.pick(&[32_769, 65_536, 65_537, 70_001]);
    }
    match r.below(8) {
        0 => 1,
        1 => 5000,
        2 => 1 + r.below(1000),
        _ => 1 + r.below(50),
    }
}
fn queries(c: &mut Case, pts: &[Co], dim: usize) -> Vec<Q> {
    let m = refm::max_abs(pts);
    let n = nsteps(&mut c.rng, pts.len());
    let mut v = all(&mut c.rng, dim, m.min(MAG), 50);
    for q in v.iter_mut() {
        match q {
            Q::Arclen(k) => *k = n,
            Q::Dist(p) => {
                // a query on the curve's own points, far away, or tiny
                match c.rng.below(4) {
                    0 => *p = pts[c.rng.below(pts.len())].clone(),
                    1 => *p = refm::bezier(pts, gen::param(&mut c.rng)).iter().map(|x| *x as F).collect(),
                    2 => p.iter_mut().for_each(|x| *x = if c.rng.chance(0.5) { 0.0 } else { MAG as F }),
                    _ => {}
                }
            }
            Q::Linear(t) | Q::IsPoint(t) => {
                if c.rng.chance(0.3) {
                    *t = *c.rng.pick(&[0.0, F::MIN_POSITIVE, 1.0, MAG as F]);
                }
            }
            _ => {}
        }
    }
    if n > 30_000 {
        c.cover("n:huge");
    }
    if n >= 1000 {
        c.cover("n:large");
    }
    v
}
fn curve(c: &mut Case) {
    let cv = gen::curve(c, &[], 1);
    let (pts, class) = hostile(&mut c.rng, cv.dim, cv.n);
    c.cover(class);
    let o = make(cv.kind, &pts);
    for q in queries(c, &pts, cv.dim) {
        if let Some(v) = ask(&*o, &q) {
            c.cover(q.name());
            finite(c, &v, || format!("{q:?} of {:?} {}", cv.kind, shows(&pts)));
        }
    }
    c.nontrivial(hash_ps(cv.kind as u64, &pts));
    if c.want_sample() {
        c.sample(format!("[{class}] {:?} {}", cv.kind, shows(&pts)));
    }
}
/// budget of arithmetic steps: about ten times what a quadratic-time evaluation needs
fn budget(n: usize, dim: usize, evals: usize) -> u64 {
    let eval = 20 * (n as u64 + 2).pow(2) * (dim as u64 + 2);
    eval * (evals as u64 + 4) + 2000
}
fn counted(c: &mut Case) {
    let (dim, sizes) = *c.rng.pick(&PROBE_N);
    let n = match c.rng.below(6) {
        0 => 2,
        1 => 3,
        2 => 4,
        3 => *sizes.last().unwrap(),
        _ => *c.rng.pick(sizes),
    };
    let (pts, class) = hostile(&mut c.rng, dim, n);
    c.cover(class);
    let mut kinds = kinds_for(dim, n);
    if !kinds.contains(&Kind::Bez) {
        kinds.push(Kind::Bez);
    }
    let kind = *c.rng.pick(&kinds);
    let o = match make_probe(kind, &pts) {
        Some(o) => o,
        None => return,
    };
    for q in queries(c, &pts, dim) {
        let evals = match &q {
            Q::Arclen(k) => 2 * *k,
            Q::Dist(_) => 260,
            _ => 4,
        };
        let lim = budget(n, dim, evals);
        probe::arm(lim);
        let r = ask(&*o, &q);
        let (steps, _, _) = probe::disarm();
        if let Some(v) = r {
            c.cover("steps:counted");
            c.check(steps <= lim, "steps", || format!("{steps} arithmetic steps for {q:?} of {kind:?} {}", shows(&pts)));
            finite(c, &v, || format!("{q:?} of user-type {kind:?} {}", shows(&pts)));
            if c.verbose {
                println!("{} {} of {}", q.name(), steps, lim);
            }
        }
    }
    c.nontrivial(hash_ps(100 + kind as u64, &pts));
}
fn draw_spline(c: &mut Case, list: &[(usize, usize, &[usize])]) -> gen::SplineCase {
    let mut s = gen::spline_case(c, 0, 2, 1, list);
    let (pts, class) = hostile(&mut c.rng, s.dim, s.c());
    c.cover(class);
    s.pts = pts;
    s.pclass = class;
    if c.rng.chance(0.15) {
        // knots an ulp apart
        let mut x = s.knots[0];
        for k in s.knots.iter_mut() {
            *k = x;
            if c.rng.chance(0.6) {
                x = x.next_up();
            }
        }
        c.cover("knots:ulp-steps");
    }
    s
}
/// the factors that differences are scaled with, and every control point of every derivative, are within `lim`
fn representable(s: &gen::SplineCase, lim: f64) -> bool {
    let one: Vec<Co> = vec![vec![1.0]; s.pts.len()];
    let mut gaps = s.knots.windows(2).map(|w| w[1] as f64 - w[0] as f64).filter(|g| *g > 0.0);
    gaps.all(|g| s.d as f64 / g < lim) && (1..=s.d).all(|j| refm::deriv_bound_any(&s.knots, &s.pts, s.d, j).max(refm::deriv_bound_any(&s.knots, &one, s.d, j)) < lim)
}
const BIG: f64 = if IS32 { 1e36 } else { 1e300 };
const BIG_SQ: f64 = if IS32 { 1e17 } else { 1e150 };
fn spline(c: &mut Case) {
    c.cover("bspline");
    let s = draw_spline(c, &splines::SPLINES);
    let sp = match splines::spline(s.d, &s.knots, &s.pts).expect("instantiated") {
        Ok(x) => x,
        Err(e) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
    };
    let (repr, repr_sq) = (representable(&s, BIG), representable(&s, BIG_SQ));
    if repr {
        c.cover("derivative:representable");
    }
    let ts = gen::spline_params(&mut c.rng, &s, 3);
    for t in &ts {
        match sp.eval(*t) {
            Ok(p) => finite(c, &p, || format!("eval({t:?}) of {}", s.show())),
            Err(e) => c.check(false, "error", || format!("eval({t:?}) = {e:?} of {}", s.show())),
        }
    }
    let n = nsteps(&mut c.rng, s.pts.len() + s.d);
    let l = sp.arclen(n);
    finite(c, &[l], || format!("arclen({n}) of {}", s.show()));
    // every derivative, at every parameter: finite where the derivative is representable
    let mut der = sp.derivative();
    let mut j = 1;
    while let Some(x) = der {
        for t in &ts {
            match x.eval(*t) {
                Ok(p) => {
                    if repr {
                        finite(c, &p, || format!("derivative {j} at {t:?} of {}", s.show()));
                    }
                }
                Err(e) => c.check(!repr, "error", || format!("derivative {j} at {t:?} = {e:?} of {}", s.show())),
            }
        }
        let l = x.arclen(1 + n % 40);
        if repr_sq {
            finite(c, &[l], || format!("arclen of derivative {j} of {}", s.show()));
        }
        der = x.derivative();
        j += 1;
    }
    c.nontrivial(hash_f(hash_ps(1000 + s.d as u64, &s.pts), &s.knots));
    if c.want_sample() {
        c.sample(s.show());
    }
}
fn spline_counted(c: &mut Case) {
    c.cover("bspline");
    let s = draw_spline(c, &splines::PROBE_SPLINES);
    let sp = match splines::probe_spline(s.d, &s.knots, &s.pts) {
        Some(Ok(x)) => x,
        Some(Err(e)) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
        None => return,
    };
    let repr = representable(&s, BIG);
    for _ in 0..6 {
        let q = sdraw(&mut c.rng, &s, 50);
        let evals = match &q {
            SQ::Arclen(k) => 2 * *k,
            _ => 4 + s.d,
        };
        let lim = budget(s.c() + s.d, s.dim, evals);
        probe::arm(lim);
        let r = sask(&*sp, &q);
        let (steps, _, _) = probe::disarm();
        if let Some(v) = r {
            c.cover("steps:counted");
            c.check(steps <= lim, "steps", || format!("{steps} arithmetic steps for {q:?} of {}", s.show()));
            if repr || !matches!(q, SQ::Deriv(_)) {
                finite(c, &v, || format!("{q:?} of user-type {}", s.show()));
            }
            if c.verbose {
                println!("{} {} of {}", q.name(), steps, lim);
            }
        }
    }
    c.nontrivial(hash_f(hash_ps(2000 + s.d as u64, &s.pts), &s.knots));
}
