//! C28: freestanding use with a bounded stack. The stack below every library call is marked and inspected afterwards;
//! what a call uses may depend on the types, never on the data. The comparison of the program without std with this
//! hosted one is made by the runner, from the output of `bare` and of this program under VERIF_BARE.
use harness::{curves::*, gen, hash_ps, mon::*, refm, shows, splines, workout::*, Co, F, IS32};

/// constant data of the same type: what the type itself needs
fn plain(dim: usize, n: usize) -> Vec<Co> {
    (0..n).map(|i| (0..dim).map(|k| ((i * 7 + k * 3) % 11) as F + i as F * 0.5).collect()).collect()
}
/// bound for a call on a type of `size` bytes that used `base` on plain data
fn bound(base: usize, size: usize) -> usize {
    // room for a branch with a frame of its own and some copies of the object, not for a frame per sample
    base + base / 2 + 1024 + 16 * size
}
#[inline(never)]
fn large_frame() -> u8 {
    let a = std::hint::black_box([1u8; 60_000]);
    std::hint::black_box(a[std::hint::black_box(5)])
}
fn main() {
    let spec = Spec {
        prop: "C28",
        quick: 60_000,
        mult: 60,
        rule: "every operation of a random or hostile curve or B-spline (step counts to 100000) against the same operation on plain data of the same type with one step: bytes of stack written below the call; and hundreds of answers of a program without std and allocator against the hosted ones; distinct by type and points, all non-trivial",
        need: &[("kind:line", 300), ("kind:quadratic", 300), ("kind:cubic", 300), ("kind:bezier", 300), ("kind:segment-line", 100), ("kind:segment-quadratic", 100), ("kind:segment-cubic", 100), ("bspline", 5000), ("measured", 100000), ("steps:large", 300), ("magnitude:extreme", 3000)],
        no_alloc: false,
    };
    // the monitor has to see a large frame
    stack_watch(true);
    lib_call("self-test", || std::hint::black_box(large_frame as fn() -> u8)());
    let seen = stack_used();
    if std::env::var_os("VERIF_BARE").is_none() && (seen < 59_000 || seen >= STACK_WINDOW) {
        eprintln!("error: the stack monitor is blind ({seen})");
        std::process::exit(3);
    }
    drive(spec, |c| {
        stack_watch(true);
        stack_used();
        let many = if c.rng.chance(0.03) { *c.rng.pick(&[1000usize, 5000, 20000, 100_000]) } else { 50 };
        if c.idx % 2 == 1 {
            c.cover("bspline");
            let s = gen::spline_case(c, 0, 2, if IS32 { 30 } else { 250 }, &splines::SPLINES);
            let size = (s.pts.len() * s.dim + s.knots.len()) * std::mem::size_of::<F>();
            let kn: Vec<F> = (0..s.knots.len()).map(|i| i as F).collect();
            let Some(Ok(p)) = splines::spline(s.d, &kn, &plain(s.dim, s.pts.len())) else {
                c.fail("construct", s.show());
                return;
            };
            let Some(Ok(o)) = splines::spline(s.d, &s.knots, &s.pts) else {
                c.fail("construct", s.show());
                return;
            };
            stack_used();
            let mid = s.d as F + 0.5;
            let (lo, hi) = s.domain();
            let ts: Vec<F> = s.knots.iter().copied().chain([gen::next_down(lo), gen::next_up(hi), F::NAN]).collect();
            let base = |q: SQ| {
                sask(&*p, &q);
                stack_used()
            };
            let b = base(SQ::Eval(mid)).max(base(SQ::Eval(s.d as F)));
            for t in ts {
                let _ = o.eval(t);
                let u = stack_used();
                c.cover("measured");
                c.check(u <= bound(b, size), "stack", || format!("evaluation at {t:?} uses {u} bytes of stack, plain data {b}: {}", s.show()));
            }
            sask(&*o, &SQ::Arclen(1 + many % 7));
            let few = stack_used();
            sask(&*o, &SQ::Arclen(many));
            let u = stack_used();
            c.cover("measured");
            c.check(u <= few + 768 + 4 * size, "steps", || format!("arclen({many}) uses {u} bytes of stack, arclen({}) only {few}: {}", 1 + many % 7, s.show()));
            for (q, easy) in [(SQ::Arclen(many), SQ::Arclen(1)), (SQ::Deriv(lo), SQ::Deriv(mid)), (SQ::Copy(hi), SQ::Copy(mid)), (SQ::Domain, SQ::Domain), (SQ::Knots, SQ::Knots)] {
                let b = base(easy);
                sask(&*o, &q);
                let u = stack_used();
                c.cover("measured");
                if many >= 1000 {
                    c.cover("steps:large");
                }
                c.check(u <= bound(b, size), "stack", || format!("{q:?} uses {u} bytes of stack, plain data {b}: {}", s.show()));
            }
            c.nontrivial(hash_ps(1000 + s.d as u64, &s.pts));
            if c.want_sample() {
                c.sample(s.show());
            }
            return;
        }
        let e = if IS32 { 37 } else { 300 };
        let me = if c.rng.chance(0.5) { 10 } else { e };
        let mut cv = gen::curve(c, &[], me);
        if c.rng.chance(0.2) {
            c.cover("magnitude:extreme");
            for p in cv.pts.iter_mut() {
                for x in p.iter_mut() {
                    *x = match c.rng.below(6) {
                        0 => F::MAX,
                        1 => -F::MAX,
                        2 => F::MIN_POSITIVE * 0.25,
                        3 => 0.0,
                        _ => *x,
                    };
                }
            }
        }
        let size = cv.n * cv.dim * std::mem::size_of::<F>();
        let (o, p) = (make(cv.kind, &cv.pts), make(cv.kind, &plain(cv.dim, cv.n)));
        let m = refm::max_abs(&cv.pts);
        stack_used();
        for q in all(&mut c.rng, cv.dim, m.min(1e30), 50) {
            let q = if let Q::Arclen(_) = q { Q::Arclen(many) } else { q };
            // the same request with plain arguments, twice where the answer may branch early
            let easy: Vec<Q> = match &q {
                Q::Evals(_) => vec![Q::Evals(0.5)],
                Q::Split(..) => vec![Q::Split(0.5, 0.5)],
                Q::Deriv(_) => vec![Q::Deriv(0.5)],
                Q::Arclen(_) => vec![Q::Arclen(1)],
                Q::Dist(_) => vec![Q::Dist(vec![1.0; cv.dim])],
                Q::Linear(_) => vec![Q::Linear(0.0), Q::Linear(1e3)],
                Q::IsPoint(_) => vec![Q::IsPoint(0.0), Q::IsPoint(1e3)],
                q => vec![q.clone()],
            };
            let mut b = 0;
            for x in easy {
                ask(&*p, &x);
                b = b.max(stack_used());
            }
            if ask(&*o, &q).is_none() {
                continue;
            }
            let u = stack_used();
            c.cover("measured");
            if many >= 1000 && matches!(q, Q::Arclen(_)) {
                c.cover("steps:large");
            }
            if let Q::Arclen(_) = q {
                ask(&*o, &Q::Arclen(1 + many % 7));
                let few = stack_used();
                c.check(u <= few + 768 + 4 * size, "steps", || format!("{q:?} uses {u} bytes of stack, arclen({}) only {few}: {:?} {}", 1 + many % 7, cv.kind, shows(&cv.pts)));
            }
            c.check(u <= bound(b, size), "stack", || format!("{q:?} uses {u} bytes of stack, plain data of the same type {b}: {:?} {}", cv.kind, shows(&cv.pts)));
        }
        c.nontrivial(hash_ps(cv.kind as u64, &cv.pts));
        if c.want_sample() {
            c.sample(format!("{:?} {}", cv.kind, shows(&cv.pts)));
        }
    });
}
