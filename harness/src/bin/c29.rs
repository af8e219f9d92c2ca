//! C29: the answers do not depend on how the program is built. Each case leaves a digest of its inputs and one of its
//! answers (or of how the request was refused); the runner compares the digests of the same case between builds.
use harness::{curves::*, gen, hash_f, hash_ps, mon::*, refm, shows, splines, workout::*, F, IS32};
use stroke::{BSpline, Point, PointN};

struct Log {
    h: u64,
    verbose: bool,
}
impl Log {
    fn add(&mut self, c: &mut Case, what: impl Fn() -> String, a: &Result<Option<Vec<F>>, String>) {
        let mut put = |x: u64| self.h = (self.h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        match a {
            Err(_) => put(0xdead),
            Ok(None) => put(0xbeef),
            Ok(Some(v)) => {
                put(v.len() as u64);
                // neither the payload of a NaN nor the sign of a zero is promised
                for x in v {
                    put(if x.is_nan() {
                        1
                    } else if *x == 0.0 {
                        2
                    } else {
                        (*x as f64).to_bits()
                    });
                }
            }
        }
        if a.is_err() {
            c.cover("refused");
        }
        c.eval1();
        if self.verbose {
            println!("  answer {} = {}", what(), match a {
                Err(_) => "a panic".to_string(),
                Ok(x) => format!("{x:?}"),
            });
        }
    }
}

fn size<const K: usize, const C: usize, const D: usize>(k: &[F], p: &[F]) -> Option<Vec<F>> {
    let kk: [F; K] = std::array::from_fn(|i| k[i]);
    let pp: [PointN<F, 1>; C] = std::array::from_fn(|i| PointN::new([p[i]]));
    Some(match lib_call("BSpline::new", || BSpline::<PointN<F, 1>, K, C, D>::new(kk, pp)) {
        Err(e) => vec![err_code(e)],
        Ok(s) => s.knots().copied().chain([s.knot_domain().0, s.knot_domain().1]).collect(),
    })
}
type Size = fn(&[F], &[F]) -> Option<Vec<F>>;
/// sizes that fit and sizes that do not, down to nothing
const SIZES: &[Size] = &[
    size::<0, 0, 0>, size::<0, 1, 0>, size::<1, 1, 0>, size::<2, 1, 0>, size::<3, 1, 0>, size::<0, 2, 1>, size::<1, 2, 1>, size::<3, 2, 1>, size::<4, 2, 1>, size::<5, 2, 1>,
    size::<4, 1, 1>, size::<4, 0, 1>, size::<2, 3, 2>, size::<3, 3, 2>, size::<6, 3, 2>, size::<7, 3, 2>, size::<6, 2, 2>, size::<0, 3, 2>, size::<7, 4, 3>, size::<8, 4, 3>, size::<9, 4, 3>, size::<12, 4, 7>, size::<1, 6, 5>, size::<12, 6, 5>,
];

fn main() {
    let spec = Spec {
        prop: "C29",
        quick: 200_000,
        mult: 40,
        rule: "every query of a random curve, B-spline or point, with valid arguments and with invalid ones (axis beyond the dimension, parameters outside the domain or not finite, zero steps, malformed knots), in each build; a digest of the answers of each case compared between the builds; distinct by type and points, all non-trivial",
        need: &[("kind:line", 500), ("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500), ("kind:segment-line", 200), ("kind:segment-quadratic", 200), ("kind:segment-cubic", 200), ("bspline", 5000), ("point", 3000), ("refused", 3000), ("construction-refused", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let mut l = Log { h: 0xcbf29ce484222325, verbose: c.verbose };
        let input = match c.idx % 10 {
            0..=4 => curve(c, &mut l),
            5..=8 => spline(c, &mut l),
            _ => point(c, &mut l),
        };
        c.nontrivial(input);
        c.digest(input, l.h);
    });
}
fn invalid(c: &mut Case) -> F {
    *c.rng.pick(&[-1.0, 1.5, -F::EPSILON, 1.0 + F::EPSILON, F::NAN, F::INFINITY, F::NEG_INFINITY, F::MAX, -1e6])
}
fn fold(h: u64, q: &impl std::fmt::Debug) -> u64 {
    format!("{q:?}").bytes().fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn curve(c: &mut Case, l: &mut Log) -> u64 {
    let cv = gen::curve(c, &[], if IS32 { 8 } else { 60 });
    let m = refm::max_abs(&cv.pts).max(1e-3);
    let mut h = hash_ps(cv.kind as u64, &cv.pts);
    let mut qs = all(&mut c.rng, cv.dim, m, 60);
    for _ in 0..6 {
        qs.push(draw(&mut c.rng, cv.dim, m, 60));
    }
    let (t, u) = (invalid(c), gen::param(&mut c.rng));
    qs.extend([Q::Evals(t), Q::Split(t, u), Q::Split(u, t), Q::Axis(t, 0), Q::Axis(u, cv.dim), Q::Axis(u, usize::MAX), Q::Dd(t, cv.dim - 1), Q::Dd(u, cv.dim), Q::Deriv(t), Q::Baseline(t), Q::Linear(t), Q::IsPoint(t), Q::Arclen(0), Q::Dist(vec![t; cv.dim])]);
    let o = make(cv.kind, &cv.pts);
    for q in &qs {
        h = fold(h, q);
        let a = lib_try("request", || ask(&*o, q));
        l.add(c, || format!("{q:?}"), &a);
    }
    if c.want_sample() {
        c.sample(format!("{:?} {}", cv.kind, shows(&cv.pts)));
    }
    h
}
fn spline(c: &mut Case, l: &mut Log) -> u64 {
    c.cover("bspline");
    let s = gen::spline_case(c, 0, 1, if IS32 { 8 } else { 60 }, &splines::SPLINES);
    let mut h = hash_f(hash_ps(1000 + s.d as u64, &s.pts), &s.knots);
    // malformed definitions
    for k in 0..3 {
        let mut bad = s.knots.clone();
        let i = c.rng.below(bad.len());
        match k {
            0 => bad[i] = F::NAN,
            1 => bad.reverse(),
            _ => bad[i] = *c.rng.pick(&[F::MAX, F::MIN, F::INFINITY, F::NEG_INFINITY]),
        }
        let a = lib_try("request", || {
            splines::spline(s.d, &bad, &s.pts).map(|r| match r {
                Err(e) => vec![err_code(e)],
                Ok(sp) => vec![sp.domain().0, sp.domain().1],
            })
        });
        if matches!(&a, Ok(Some(v)) if v.len() == 1) {
            c.cover("construction-refused");
        }
        l.add(c, || format!("knots {bad:?}"), &a);
    }
    let mut k: Vec<F> = (0..12).map(|_| c.rng.range(-4, 4) as F).collect();
    if c.rng.chance(0.7) {
        k.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
    for _ in 0..2 {
        let i = c.rng.below(SIZES.len());
        h = fold(h, &(i, &k));
        let a = lib_try("request", || SIZES[i](&k, &[1.0; 6]));
        l.add(c, || format!("size {i} with knots {k:?}"), &a);
    }
    let Some(Ok(sp)) = splines::spline(s.d, &s.knots, &s.pts) else {
        c.fail("construct", s.show());
        return h;
    };
    let mut qs: Vec<SQ> = gen::spline_params(&mut c.rng, &s, 1).into_iter().map(SQ::Eval).collect();
    while qs.len() > 16 {
        let i = c.rng.below(qs.len());
        qs.swap_remove(i);
    }
    for _ in 0..12 {
        qs.push(sdraw(&mut c.rng, &s, 60));
    }
    let (a, b) = s.domain();
    let t = invalid(c);
    qs.extend([SQ::Eval(t), SQ::Eval(gen::next_down(a)), SQ::Eval(gen::next_up(b)), SQ::Deriv(t), SQ::Copy(t), SQ::Arclen(0)]);
    for q in &qs {
        h = fold(h, q);
        let a = lib_try("request", || sask(&*sp, q));
        l.add(c, || format!("{q:?}"), &a);
    }
    if c.want_sample() {
        c.sample(s.show());
    }
    h
}
fn point(c: &mut Case, l: &mut Log) -> u64 {
    c.cover("point");
    match c.rng.below(6) {
        0 => points::<1>(c, l),
        1 => points::<2>(c, l),
        2 => points::<3>(c, l),
        3 => points::<4>(c, l),
        4 => points::<7>(c, l),
        _ => points::<16>(c, l),
    }
}
fn points<const N: usize>(c: &mut Case, l: &mut Log) -> u64 {
    let (ps, _) = gen::points(&mut c.rng, N, 2, if IS32 { 8 } else { 60 });
    let s = invalid(c);
    let a: [F; N] = std::array::from_fn(|i| ps[0][i]);
    let b: [F; N] = std::array::from_fn(|i| ps[1][i]);
    let (p, q) = (PointN::new(a), PointN::new(b));
    let out = |x: PointN<F, N>| IntoIterator::into_iter(x).collect::<Vec<F>>();
    let r = lib_try("PointN", || {
        let mut v = [out(p + q), out(p - q), out(p * s), out(p + s), out(p - s), out(PointN::default())].concat();
        v.push(p.squared_length());
        v.push((p == q) as u8 as F);
        v.extend((0..N).map(|i| p.axis(i)));
        Some(v)
    });
    l.add(c, || "point arithmetic".into(), &r);
    for i in [N, N + 1, usize::MAX] {
        let r = lib_try("PointN::axis", || Some(vec![p.axis(i)]));
        l.add(c, || format!("axis({i})"), &r);
    }
    hash_f(hash_ps(77, &ps), &[s])
}
