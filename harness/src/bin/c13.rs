//! C13: construction of B-splines.
use harness::{gen, hash_f, mon::*, show, splines, F};
use stroke::bspline::BSplineError as E;
use stroke::{BSpline, PointN};

type Made = Result<(Vec<F>, Vec<F>), E>;
fn build<const K: usize, const C: usize, const D: usize>(k: &[F], p: &[F]) -> Made {
    let mut kk = [0.0; K];
    kk.copy_from_slice(k);
    let mut pp = [PointN::new([0.0 as F]); C];
    for (x, y) in pp.iter_mut().zip(p) {
        *x = PointN::new([*y]);
    }
    let r = lib_call("BSpline::new", || BSpline::<PointN<F, 1>, K, C, D>::new(kk, pp));
    r.map(|s| (s.knots().copied().collect(), s.control_points().map(|p| p.into_iter().next().unwrap()).collect()))
}
macro_rules! grid_d { ($t:ident, $K:literal, $C:literal, $($D:literal)+) => { $($t.push(($K, $C, $D, build::<$K, $C, $D>));)+ } }
macro_rules! grid_c { ($t:ident, $K:literal, $($C:literal)+) => { $(grid_d!($t, $K, $C, 0 1 2 3 4);)+ } }
macro_rules! grid { ($t:ident, $($K:literal)+) => { $(grid_c!($t, $K, 0 1 2 3 4 5 6);)+ } }
type Row = (usize, usize, usize, fn(&[F], &[F]) -> Made);

fn expected(k: &[F], c: usize, d: usize) -> Option<E> {
    if c <= d {
        Some(E::TooFewControlPoints)
    } else if k.len() < c + d + 1 {
        Some(E::TooFewKnots)
    } else if k.len() > c + d + 1 {
        Some(E::TooManyKnots)
    } else if !(1..k.len()).all(|i| k[i - 1] <= k[i]) {
        Some(E::DecreasingKnots)
    } else {
        None
    }
}
fn bits(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| (*x as f64).to_bits()).collect()
}

fn main() {
    let mut t: Vec<Row> = Vec::new();
    grid!(t, 0 1 2 3 4 5 6 7 8 9 10 11 12);
    let t = t;
    let spec = Spec {
        prop: "C13",
        quick: 4_000_000,
        mult: 40,
        rule: "every combination of K 0..12, C 0..6, D 0..4 (455 instantiations, each visited in turn) and the larger instantiated splines, x knot vectors valid or broken at one chosen pair (one ulp, a lot, the first pair, the last pair, signed zeros, infinities, NaN at any position); distinct by sizes and knots, non-trivial when the sizes fit so that the order of the knots decides",
        need: &[("accept", 2000), ("TooFewControlPoints", 1000), ("TooFewKnots", 1000), ("TooManyKnots", 1000), ("DecreasingKnots", 1000), ("nan", 1000), ("one-ulp", 500), ("first-pair", 200), ("last-pair", 200), ("infinite", 200), ("equal-knots", 200), ("grid", 455)],
        no_alloc: false,
    };
    drive(spec, |c| {
        // sizes: walk the grid; every other case take sizes that fit
        let fit: Vec<&Row> = t.iter().filter(|r| r.1 > r.2 && r.0 == r.1 + r.2 + 1).collect();
        let use_big = c.rng.chance(0.2);
        let row = if c.idx % 2 == 0 {
            c.cover("grid");
            &t[(c.idx / 2) as usize % t.len()]
        } else {
            fit[c.rng.below(fit.len())]
        };
        let (mut k, mut cc, mut d) = (row.0, row.1, row.2);
        let mut dim = 1;
        if use_big {
            let (dm, dmax, ms) = *c.rng.pick(&splines::SPLINES);
            dim = dm;
            d = c.rng.below(dmax + 1);
            let m = *c.rng.pick(ms);
            cc = m + d;
            k = cc + d + 1;
        }
        // knots
        let mut v: Vec<F> = Vec::with_capacity(k);
        if use_big && c.rng.chance(0.5) {
            let m = cc - d;
            v = gen::knots(&mut c.rng, d, m, 2).0;
        } else {
            let s = gen::magnitude(&mut c.rng, 6);
            let mut x = (c.rng.range(-20, 20) as f64 * s) as F;
            for _ in 0..k {
                v.push(x);
                match c.rng.below(4) {
                    0 => {}
                    1 => x = x.next_up(),
                    _ => x += (c.rng.unit() * s) as F,
                }
            }
        }
        let mutate = c.rng.below(10);
        if k >= 2 {
            let i = match c.rng.below(4) {
                0 => 0,
                1 => k - 2,
                _ => c.rng.below(k - 1),
            };
            match mutate {
                0 => {
                    // decreasing by one ulp at pair (i,i+1), everything after moved along
                    let x = v[i];
                    for y in v.iter_mut().skip(i + 1) {
                        *y = x.next_down();
                    }
                    c.cover("one-ulp");
                }
                1 => {
                    let x = v[i];
                    v[i + 1] = x - 1.0 - x.abs();
                }
                2 => {
                    v.swap(i, i + 1);
                }
                3 => {
                    let j = c.rng.below(k);
                    v[j] = F::NAN;
                    c.cover("nan");
                }
                4 => {
                    c.cover("infinite");
                    match c.rng.below(4) {
                        0 => v[0] = F::NEG_INFINITY,
                        1 => v[k - 1] = F::INFINITY,
                        2 => v[0] = F::INFINITY,
                        _ => {
                            let j = c.rng.below(k);
                            v[j] = if c.rng.chance(0.5) { F::INFINITY } else { F::NEG_INFINITY };
                        }
                    }
                }
                5 => {
                    c.cover("equal-knots");
                    let x = v[0];
                    v.iter_mut().for_each(|y| *y = x);
                    if c.rng.chance(0.3) {
                        v.iter_mut().for_each(|y| *y = F::NAN);
                    } else if c.rng.chance(0.3) {
                        for y in v.iter_mut() {
                            *y = if c.rng.chance(0.5) { 0.0 } else { -0.0 };
                        }
                    }
                }
                _ => {}
            }
            if mutate <= 2 && i == 0 {
                c.cover("first-pair");
            }
            if mutate <= 2 && i == k - 2 {
                c.cover("last-pair");
            }
        } else if k == 1 && mutate == 0 {
            // a single NaN knot fits no definition, the other errors come first
            v[0] = F::NAN;
        }
        let want = expected(&v, cc, d);
        let ctx = || format!("degree {d}, {cc} control points, {k} knots {}", show(&v));
        let (ok, got): (bool, String);
        if use_big {
            let (pts, _) = gen::points(&mut c.rng, dim, cc, 20.min(if harness::IS32 { 8 } else { 20 }));
            let r = splines::spline(d, &v, &pts).expect("instantiated");
            match (&r, want) {
                (Ok(s), None) => {
                    let (kk, pp) = (s.knots(), s.ctrl());
                    ok = bits(&kk) == bits(&v) && pp.len() == cc && pp.iter().zip(&pts).all(|(a, b)| bits(a) == bits(b));
                    got = format!("accepted, reporting knots {} points {}", show(&kk), harness::shows(&pp));
                }
                (Ok(_), Some(_)) => {
                    ok = false;
                    got = "accepted".into();
                }
                (Err(e), w) => {
                    ok = Some(*e) == w;
                    got = format!("{e:?}");
                }
            }
        } else {
            let p: Vec<F> = (0..cc).map(|_| (c.rng.sym() * 10.0) as F).collect();
            match (row.3(&v, &p), want) {
                (Ok((kk, pp)), None) => {
                    ok = bits(&kk) == bits(&v) && bits(&pp) == bits(&p);
                    got = format!("accepted, reporting knots {} points {}", show(&kk), show(&pp));
                }
                (Ok(_), Some(_)) => {
                    ok = false;
                    got = "accepted".into();
                }
                (Err(e), w) => {
                    ok = Some(e) == w;
                    got = format!("{e:?}");
                }
            }
        }
        c.check(ok, "verdict", || format!("{got} instead of {want:?}: {}", ctx()));
        c.cover(match want {
            None => "accept",
            Some(E::TooFewControlPoints) => "TooFewControlPoints",
            Some(E::TooFewKnots) => "TooFewKnots",
            Some(E::TooManyKnots) => "TooManyKnots",
            _ => "DecreasingKnots",
        });
        if cc > d && k == cc + d + 1 {
            c.nontrivial(hash_f((k * 1000 + d) as u64, &v));
        }
        if c.want_sample() {
            c.sample(format!("{} -> {got}", ctx()));
        }
    });
}
