//! C07: arc length of Bézier curves.
use harness::{chk::*, curves::*, gen, hash_ps, mon::*, refm, shows, EPS, IS32, RT, TINY_SQ};

fn main() {
    let spec = Spec {
        prop: "C07",
        quick: 1_200_000,
        mult: 30,
        rule: "random quadratics, cubics and general curves x dimension x degree x step count 1..200 (thorough: 2000); against the sum of reference chords, the chord and polygon bounds, and the length at a finer step count; distinct by type, points and step count, non-trivial when the polygon is not of length zero",
        need: &[("kind:quadratic", 1000), ("kind:cubic", 1000), ("kind:bezier", 1000), ("n:1", 100), ("n:2", 100), ("n>=50", 100), ("refined", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[Kind::Quad, Kind::Cubic, Kind::Bez], if IS32 { 8 } else { 60 });
        let obj = make(cv.kind, &cv.pts);
        let max = if c.thorough && c.rng.chance(0.1) { 2000 } else { 200 };
        let n = gen::steps(&mut c.rng, max);
        match n {
            1 => c.cover("n:1"),
            2 => c.cover("n:2"),
            x if x >= 50 => c.cover("n>=50"),
            _ => {}
        }
        let m = refm::max_abs(&cv.pts) * (cv.dim as f64).sqrt();
        let deg = cv.n as f64;
        let tol = |n: usize| (RT + 4.0 * n as f64 * EPS * deg) * m + TINY_SQ;
        let ctx = || format!("arclen({n}) of {:?} {}", cv.kind, shows(&cv.pts));
        let got = obj.arclen(n).unwrap();
        near1(c, "chords", got, refm::chords(&cv.pts, n), tol(n), ctx);
        let (lo, hi) = (refm::dist(&refm::wide(&cv.pts[0]), &refm::wide(&cv.pts[cv.n - 1])), refm::polygon(&cv.pts));
        c.check(got as f64 >= lo - tol(n) && got as f64 <= hi + tol(n), "bounds", || format!("{got:?} outside [{lo:e}, {hi:e}]: {}", ctx()));
        if c.rng.chance(0.1) && n <= 100 {
            // halving every chord never shortens the flattening
            c.cover("refined");
            let fine = obj.arclen(2 * n).unwrap();
            c.check(fine as f64 >= got as f64 - 2.0 * tol(2 * n), "refine", || format!("length fell from {got:?} to {fine:?} with twice the steps: {}", ctx()));
        }
        if hi > 0.0 {
            c.nontrivial(hash_ps(cv.kind as u64 + 16 * n as u64, &cv.pts));
        }
        if c.want_sample() {
            c.sample(format!("{} = {got:?}", ctx()));
        }
    });
}
