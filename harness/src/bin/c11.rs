//! C11: agreement of all representations of one curve.
use harness::{chk::*, curves::*, gen, hash_ps, mon::*, refm, shows, splines, Co, EPS, F, IS32, RT, TINY, TINY_SQ};
use stroke::bezier_segment::BezierSegment;
use stroke::{CubicBezier, LineSegment, Point, PointN, QuadraticBezier};

/// wrapped segments take parameters and tolerances of any float type that converts into the scalar
fn narrow<const N: usize>(c: &mut Case, pts: &[Co])
where
    PointN<F, N>: Point<Scalar = F>,
{
    let q: Vec<PointN<F, N>> = pts.iter().map(|p| PointN::new(std::array::from_fn(|k| p[k]))).collect();
    let s: BezierSegment<PointN<F, N>> = match q[..] {
        [a, b] => LineSegment::new(a, b).into(),
        [a, b, d] => QuadraticBezier::new(a, b, d).into(),
        [a, b, d, e] => CubicBezier::new(a, b, d, e).into(),
        _ => return,
    };
    c.cover("op:narrow");
    let t = gen::param(&mut c.rng) as f32;
    let (x, y) = lib_call("BezierSegment::split<f32>", || s.split::<f32>(t));
    let (v, w) = lib_call("BezierSegment::split", || s.split::<F>(t as F));
    c.check((x, y) == (v, w) || pts.iter().flatten().any(|x| x.is_nan()), "split-narrow", || format!("split at {t:?}: {x:?} {y:?} from a 32-bit parameter, {v:?} {w:?} otherwise"));
    let tol = (refm::max_abs(pts) * c.rng.unit() * 0.5) as f32;
    let (a, b) = lib_call("BezierSegment::is_linear", || (s.is_linear::<f32>(tol), s.is_linear::<F>(tol as F)));
    c.check(a == b, "linear-narrow", || format!("is_linear({tol:?}) is {a} from a 32-bit tolerance, {b} otherwise: {}", shows(pts)));
}
struct Rep {
    name: &'static str,
    c: Dyn,
}

fn main() {
    let spec = Spec {
        prop: "C11",
        quick: 240_000,
        mult: 40,
        rule: "random control points (2..10 of them x dimension 1..8 x 16 configuration classes) used through every representation that accepts them (specialised type, general Bézier, wrapper, clamped single-span B-spline); all operations offered by two or more representations compared pairwise with the first; distinct by points, non-trivial when the points are not all equal",
        need: &[("n:2", 1000), ("n:3", 1000), ("n:4", 1000), ("n:5+", 1000), ("with-bspline", 2000), ("op:split", 1000), ("op:derivative", 1000), ("op:arclen", 1000), ("op:distance", 1000), ("op:baseline", 1000), ("op:ends", 1000), ("op:bspline-derivative", 1000), ("op:narrow", 1000), ("op:is_linear", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let maxexp = if IS32 { 6 } else { 40 };
        let dim = gen::dimension(&mut c.rng);
        let n = match c.rng.below(8) {
            0 | 1 => 2,
            2 | 3 => 3,
            4 | 5 => 4,
            _ => gen::bez_size(&mut c.rng, dim).max(2),
        };
        c.cover(match n {
            2 => "n:2",
            3 => "n:3",
            4 => "n:4",
            _ => "n:5+",
        });
        let (pts, class) = gen::points(&mut c.rng, dim, n, maxexp);
        c.cover(class);
        let reps: Vec<Rep> = kinds_for(dim, n).into_iter().map(|k| Rep { name: gen::kind_name(k), c: make(k, &pts) }).collect();
        let d = n - 1;
        let mut knots = vec![0.0 as F; n];
        knots.extend(vec![1.0 as F; n]);
        let spl = splines::spline(d, &knots, &pts).map(|r| r.expect("a clamped single-span definition is valid"));
        if spl.is_some() {
            c.cover("with-bspline");
        }
        let ctx = |a: &str| {
            let (a, p) = (a.to_string(), shows(&pts));
            move || format!("{a} of {p}")
        };
        let ax = |k: usize| lin(refm::axis_max(&pts, k));
        let m = refm::max_abs(&pts) * (dim as f64).sqrt();
        // evaluation
        for _ in 0..3 {
            let t = gen::param(&mut c.rng);
            let all: Vec<(&str, Co)> = reps.iter().flat_map(|r| r.c.evals(t)).collect();
            for (name, v) in &all[1..] {
                same(c, "eval", v, &all[0].1, ax, ctx(&format!("{name} against {} at t={t:?}", all[0].0)));
            }
            if let Some(s) = &spl {
                match s.eval(t) {
                    Ok(v) => {
                        same(c, "eval-bspline", &v, &all[0].1, ax, ctx(&format!("BSpline::eval against {} at t={t:?}", all[0].0)));
                    }
                    Err(e) => c.fail("eval-bspline", format!("BSpline::eval({t:?}) = {e:?}: {}", shows(&pts))),
                }
            }
        }
        // splitting: compare the parts as curves
        if reps.len() > 1 {
            c.cover("op:split");
            let t = gen::param(&mut c.rng);
            let s = gen::param(&mut c.rng);
            let parts: Vec<(Dyn, Dyn)> = reps.iter().map(|r| r.c.split(t)).collect();
            let (a0, b0) = (parts[0].0.eval(s), parts[0].1.eval(s));
            for (r, (a, b)) in reps.iter().zip(&parts).skip(1) {
                let what = ctx(&format!("split at {t:?} of {} against {} at s={s:?}", r.name, reps[0].name));
                same(c, "split-left", &a.eval(s), &a0, ax, &what);
                same(c, "split-right", &b.eval(s), &b0, ax, &what);
                c.check(a.n() == n && b.n() == n, "split-type", &what);
            }
        }
        match dim {
            1 => narrow::<1>(c, &pts),
            2 => narrow::<2>(c, &pts),
            3 => narrow::<3>(c, &pts),
            _ => {}
        }
        // derivatives, repeatedly
        let mut ders: Vec<(&str, Dyn)> = reps.iter().filter_map(|r| r.c.derivative().map(|x| (r.name, x))).collect();
        let mut sd = spl.as_ref().and_then(|s| s.derivative());
        let mut order = 1;
        while !ders.is_empty() {
            let gain = refm::deriv_gain(d, order);
            for _ in 0..2 {
                let t = gen::param(&mut c.rng);
                let v0 = ders[0].1.eval(t);
                let tol = |k: usize| lin(gain * refm::axis_max(&pts, k));
                for (name, x) in &ders[1..] {
                    c.cover("op:derivative");
                    same(c, "derivative", &x.eval(t), &v0, tol, ctx(&format!("derivative {order} of {name} against {} at t={t:?}", ders[0].0)));
                }
                if let Some(s) = &sd {
                    c.cover("op:bspline-derivative");
                    match s.eval(t) {
                        Ok(v) => {
                            same(c, "derivative-bspline", &v, &v0, tol, ctx(&format!("BSpline derivative {order} against {} at t={t:?}", ders[0].0)));
                        }
                        Err(e) => c.fail("derivative-bspline", format!("derivative {order} of the B-spline at {t:?}: {e:?}: {}", shows(&pts))),
                    }
                }
            }
            ders = ders.iter().filter_map(|(nm, x)| x.derivative().map(|y| (*nm, y))).collect();
            sd = sd.and_then(|s| s.derivative());
            order += 1;
        }
        // linearity, at tolerances on the scale of the curve; near the deciding distance rounding may decide
        if n > 2 {
            let extent = (0..n).map(|i| refm::dist(&refm::wide(&pts[i]), &refm::wide(&pts[0]))).fold(0.0, f64::max);
            for _ in 0..2 {
                let tol = match c.rng.below(4) {
                    0 => m * (1e-3 + c.rng.unit()),
                    1 => extent * 10f64.powi(-(c.rng.range(0, 8) as i32)),
                    _ => extent * (0.01 + c.rng.unit()),
                };
                let at = |r: &Rep, f: f64| r.c.is_linear((tol * f) as F);
                let band = 1.0 + if IS32 { 1e-2 } else { 1e-6 };
                let firm: Vec<(&str, bool)> = reps
                    .iter()
                    .filter_map(|r| match (at(r, 1.0), at(r, 1.0 / band), at(r, band)) {
                        (Some(a), Some(b), Some(c)) if a == b && a == c => Some((r.name, a)),
                        _ => None,
                    })
                    .collect();
                for (name, v) in firm.iter().skip(1) {
                    c.cover("op:is_linear");
                    c.check(*v == firm[0].1, "linear", ctx(&format!("is_linear({tol:e}) is {v} for {name}, {} for {}", firm[0].1, firm[0].0)));
                }
            }
        }
        // end points and baseline
        for r in &reps {
            if let Some((a, b)) = r.c.start_end() {
                c.cover("op:ends");
                c.check(a == pts[0] && b == pts[n - 1], "ends", ctx(&format!("start/end of {} are {:?} {:?}", r.name, a, b)));
            }
            if let Some(b) = r.c.baseline() {
                c.cover("op:baseline");
                for t in [0.0, 1.0, 0.375] {
                    let want: Vec<f64> = (0..dim).map(|k| pts[0][k] as f64 * (1.0 - t) + pts[n - 1][k] as f64 * t).collect();
                    near(c, "baseline", &b.eval(t as F), &want, |k| lin((pts[0][k] as f64).abs().max((pts[n - 1][k] as f64).abs())), ctx(&format!("baseline of {} at {t}", r.name)));
                }
            }
        }
        // arc length
        let nst = gen::steps(&mut c.rng, 100);
        let tol = (RT + 8.0 * nst as f64 * EPS * n as f64) * m + TINY_SQ;
        let mut lens: Vec<(&str, F)> = reps.iter().filter_map(|r| r.c.arclen(nst).map(|x| (r.name, x))).collect();
        if let Some(s) = &spl {
            lens.push(("bspline", s.arclen(nst)));
        }
        for w in lens.iter().skip(1) {
            c.cover("op:arclen");
            near1(c, "arclen", w.1, lens[0].1 as f64, tol, ctx(&format!("arclen({nst}) of {} against {}", w.0, lens[0].0)));
        }
        // distance
        if c.rng.chance(0.3) {
            let q: Co = if c.rng.chance(0.5) {
                let t = gen::param(&mut c.rng);
                let j = c.rng.unit() * 0.1;
                refm::bezier(&pts, t).iter().map(|x| (x + m * j) as F).collect()
            } else {
                (0..dim).map(|_| (c.rng.sym() * m * 2.0) as F).collect()
            };
            let ds: Vec<(&str, F)> = reps.iter().filter_map(|r| r.c.distance(&q).map(|x| (r.name, x))).collect();
            let speed = refm::Search::new(&pts, &q).max_speed();
            let mq = m.max(q.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs())) * (dim as f64).sqrt());
            // a line may treat segments below the root of machine epsilon as points
            let short = if n == 2 { 2.0 * EPS.sqrt() } else { 0.0 };
            for w in ds.iter().skip(1) {
                c.cover("op:distance");
                near1(c, "distance", w.1, ds[0].1 as f64, speed / 128.0 + lin(mq) + TINY_SQ + short, ctx(&format!("distance to {:?} of {} against {}", q, w.0, ds[0].0)));
            }
        }
        if pts.iter().any(|p| p != &pts[0]) {
            c.nontrivial(hash_ps(n as u64, &pts));
        }
        if c.want_sample() {
            c.sample(format!("{} representation(s){} of {}", reps.len(), if spl.is_some() { " and a B-spline" } else { "" }, shows(&pts)));
        }
        let _ = TINY;
    });
}
