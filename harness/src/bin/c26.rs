//! C26: curves are plain values that threads can share. Several threads query one object at the same time; every answer
//! has to be, bit by bit, the one an identical object gave to a single thread before.
use harness::{curves::*, gen, hash_ps, mon::*, refm, rng::Rng, shows, splines, workout::*, F, IS32};
use std::sync::atomic::{AtomicUsize, Ordering};
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, PointN, QuadraticBezier};

/// a program that shares and sends every type of the library has to build
fn sharable<T: Send + Sync + Clone + Unpin + 'static>() {}
fn types() {
    sharable::<PointN<F, 3>>();
    sharable::<LineSegment<PointN<F, 2>>>();
    sharable::<QuadraticBezier<PointN<F, 2>>>();
    sharable::<CubicBezier<PointN<F, 2>>>();
    sharable::<Bezier<PointN<F, 2>, 5>>();
    sharable::<BezierSegment<PointN<F, 2>>>();
    sharable::<BSpline<PointN<F, 2>, 8, 4, 3>>();
    sharable::<BSplineError>();
}
#[derive(Clone, Copy)]
struct Shared<'a, T: ?Sized>(&'a T);
// the concrete types behind these references are Send and Sync: `types` does not compile otherwise
unsafe impl<T: ?Sized> Sync for Shared<'_, T> {}
unsafe impl<T: ?Sized> Send for Shared<'_, T> {}
impl<'a, T: ?Sized> Shared<'a, T> {
    fn get(&self) -> &'a T {
        self.0
    }
}

const THREADS: usize = 3;
/// `ask` on `THREADS` threads at once; the mismatches they saw
fn race<Qy: Sync + std::fmt::Debug>(c: &mut Case, qs: &[Qy], want: &[Option<Vec<u64>>], rounds: usize, ask: &(dyn Fn(&Qy) -> Option<Vec<F>> + Sync)) -> Vec<String> {
    let seeds: Vec<u64> = (0..THREADS).map(|_| c.rng.u64()).collect();
    let inside = AtomicUsize::new(0);
    let overlaps = AtomicUsize::new(0);
    let slot = slot();
    let res: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
        let (inside, overlaps) = (&inside, &overlaps);
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, seed)| {
                let seed = *seed;
                s.spawn(move || {
                    sub_thread(slot, i, || {
                        let mut r = Rng::new(seed, 26, i as u64);
                        let mut bad = Vec::new();
                        // start together
                        inside.fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0;
                        // (not for long: on a busy machine every turn of the others costs a time slice)
                        while inside.load(Ordering::SeqCst) < THREADS && spins < 20_000 {
                            spins += 1;
                            if spins % 1024 == 0 {
                                std::thread::yield_now();
                            }
                        }
                        for k in 0..rounds * qs.len() {
                            let j = r.below(qs.len());
                            let a = bits(&ask(&qs[j]));
                            if inside.load(Ordering::Relaxed) > 1 {
                                overlaps.fetch_add(1, Ordering::Relaxed);
                            }
                            if a != want[j] && bad.len() < 3 {
                                bad.push(format!("thread {i}, query {k}: {:?} answers {a:?} instead of {:?}", qs[j], want[j]));
                            }
                            if r.chance(0.005) {
                                std::thread::yield_now();
                            }
                        }
                        inside.fetch_sub(1, Ordering::SeqCst);
                        bad
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread ended abnormally".into()))).collect()
    });
    for _ in 0..THREADS * rounds * qs.len() {
        c.eval1();
    }
    if overlaps.load(Ordering::Relaxed) > qs.len() {
        c.cover("overlapped");
    }
    res.into_iter().flat_map(|r| r.unwrap_or_else(|e| vec![format!("panic: {e}")])).collect()
}

fn main() {
    types();
    let spec = Spec {
        prop: "C26",
        quick: 24_000,
        mult: 60,
        rule: "random curves of every type and B-splines, each shared by three threads that ask it (and objects derived from it) random queries at the same time; every answer compared bit by bit with the answer an equal object gave to one thread; distinct by type and points, non-trivial when the points are not all equal",
        need: &[("overlapped", 1000), ("kind:line", 300), ("kind:quadratic", 300), ("kind:cubic", 300), ("kind:bezier", 300), ("kind:segment-line", 100), ("kind:segment-quadratic", 100), ("kind:segment-cubic", 100), ("bspline", 5000)],
        no_alloc: false,
    };
    let rounds = if cfg!(miri) { 1 } else { 6 };
    let nq = if cfg!(miri) { 4 } else { 16 };
    let steps = if cfg!(miri) { 3 } else { 40 };
    drive(spec, |c| {
        if c.idx % 2 == 1 {
            c.cover("bspline");
            let s = gen::spline_case(c, 0, 1, if IS32 { 6 } else { 30 }, &splines::SPLINES);
            if cfg!(miri) && s.pts.len() > 12 {
                return;
            }
            let mk = || splines::spline(s.d, &s.knots, &s.pts).expect("instantiated");
            let (Ok(first), Ok(sp)) = (mk(), mk()) else {
                c.fail("construct", s.show());
                return;
            };
            let mut qs = Vec::new();
            // parameters spread over many spans
            for t in gen::spline_params(&mut c.rng, &s, 2) {
                if c.rng.chance(nq as f64 / (6.0 * s.knots.len() as f64)) {
                    qs.push(SQ::Eval(t));
                }
            }
            qs.extend((0..nq / 2).map(|_| sdraw(&mut c.rng, &s, steps)));
            let want: Vec<_> = qs.iter().map(|q| bits(&sask(&*first, q))).collect();
            let sh = Shared(&*sp);
            for e in race(c, &qs, &want, rounds, &|q| sask(sh.get(), q)) {
                c.fail("concurrent", format!("{e}: {}", s.show()));
            }
            if s.pts.iter().any(|p| p != &s.pts[0]) {
                c.nontrivial(hash_ps(1000 + s.d as u64, &s.pts));
            }
            if c.want_sample() {
                c.sample(format!("{} asked {qs:?}", s.show()));
            }
            return;
        }
        let cv = gen::curve(c, &[], if IS32 { 6 } else { 30 });
        if cfg!(miri) && cv.n * cv.dim > 18 {
            return;
        }
        let (first, o) = (make(cv.kind, &cv.pts), make(cv.kind, &cv.pts));
        let m = refm::max_abs(&cv.pts).max(1e-3);
        let mut qs: Vec<Q> = Vec::new();
        let mut want = Vec::new();
        for _ in 0..4 * nq {
            let q = draw(&mut c.rng, cv.dim, m, steps);
            let a = ask(&*first, &q);
            if a.is_some() && qs.len() < nq {
                want.push(bits(&a));
                qs.push(q);
            }
        }
        let sh = Shared(&*o);
        for e in race(c, &qs, &want, rounds, &|q| ask(sh.get(), q)) {
            c.fail("concurrent", format!("{e}: {:?} {}", cv.kind, shows(&cv.pts)));
        }
        if cv.pts.iter().any(|p| p != &cv.pts[0]) {
            c.nontrivial(hash_ps(cv.kind as u64, &cv.pts));
        }
        if c.want_sample() {
            c.sample(format!("{:?} {} asked {qs:?}", cv.kind, shows(&cv.pts)));
        }
    });
}
