//! C25: queries change nothing; accessors and iterators mirror the points.
use harness::{curves::*, gen, hash_ps, mon::*, refm, splines, workout::*, Co, F, IS32};

fn bits_ps(ps: &[Co]) -> Vec<u64> {
    ps.iter().flatten().map(|x| (*x as f64).to_bits()).collect()
}
fn main() {
    let spec = Spec {
        prop: "C25",
        quick: 320_000,
        mult: 40,
        rule: "random histories of 10..40 steps on up to three live objects (curves of one kind, or B-splines over one knot vector): queries in random order, repeated queries, copies, mutation through iterators, accessor reads; every answer compared bit by bit with the recorded first answer and with a freshly built object holding the shadow points; distinct by points and history length, non-trivial when a query was repeated after a different one",
        need: &[("repeat", 20000), ("fresh", 10000), ("copied", 3000), ("mutated", 3000), ("after-mutation", 3000), ("ctrl", 3000), ("values", 2000), ("bspline", 2000), ("other-object", 5000), ("kind:line", 500), ("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500)],
        no_alloc: false,
    };
    drive(spec, |c| if c.rng.chance(0.3) { spline(c) } else { curve(c) });
}
struct Obj {
    o: Dyn,
    pts: Vec<Co>,
    log: Vec<(Q, Option<Vec<u64>>)>,
    mutated: bool,
}
fn curve(c: &mut Case) {
    let cv = gen::curve(c, &[], if IS32 { 6 } else { 60 });
    let (dim, n, kind) = (cv.dim, cv.n, cv.kind);
    let m = refm::max_abs(&cv.pts).max(1e-3);
    let mut objs = vec![Obj { o: make(kind, &cv.pts), pts: cv.pts.clone(), log: vec![], mutated: false }];
    let len = 10 + c.rng.below(30);
    let mut hist: Vec<String> = Vec::new();
    let mut repeated = false;
    for _ in 0..len {
        let k = c.rng.below(objs.len());
        if k > 0 {
            c.cover("other-object");
        }
        match c.rng.below(12) {
            0 if objs.len() < 3 => {
                // a copy, or an unrelated object of the same kind
                if c.rng.chance(0.6) {
                    c.cover("copied");
                    hist.push(format!("copy {k}"));
                    let o = objs[k].o.copy();
                    let (pts, log, mutated) = (objs[k].pts.clone(), objs[k].log.clone(), objs[k].mutated);
                    objs.push(Obj { o, pts, log, mutated });
                } else {
                    let (pts, _) = gen::points(&mut c.rng, dim, n, if IS32 { 6 } else { 60 });
                    hist.push(format!("new {}", objs.len()));
                    objs.push(Obj { o: make(kind, &pts), pts, log: vec![], mutated: false });
                }
            }
            1 if kind == Kind::Bez => {
                let i = c.rng.below(n);
                let v: Co = (0..dim).map(|_| (c.rng.sym() * m) as F).collect();
                objs[k].o.mutate(i, &v);
                hist.push(format!("set point {i} of {k}"));
                objs[k].pts[i] = v;
                objs[k].log.clear();
                objs[k].mutated = true;
                c.cover("mutated");
            }
            2 => {
                if let Some(p) = objs[k].o.ctrl() {
                    c.cover("ctrl");
                    hist.push(format!("control points of {k}"));
                    let ok = bits_ps(&p) == bits_ps(&objs[k].pts);
                    c.check(ok, "accessor", || format!("control points read back as {} instead of {} after {hist:?}", harness::shows(&p), harness::shows(&objs[k].pts)));
                }
                if let Some(p) = objs[k].o.into_points() {
                    c.cover("values");
                    let ok = bits_ps(&p) == bits_ps(&objs[k].pts);
                    c.check(ok, "iterator", || format!("iteration yields {} instead of {} after {hist:?}", harness::shows(&p), harness::shows(&objs[k].pts)));
                }
            }
            3 | 4 if !objs[k].log.is_empty() => {
                // repeat an old query
                let i = c.rng.below(objs[k].log.len());
                let q = objs[k].log[i].0.clone();
                c.cover("repeat");
                repeated = true;
                hist.push(format!("again {q:?} on {k}"));
                let a = bits(&ask(&*objs[k].o, &q));
                let ok = a == objs[k].log[i].1;
                c.check(ok, "repeat", || format!("{q:?} answered differently the second time: {kind:?} {} after {hist:?}", harness::shows(&objs[k].pts)));
            }
            _ => {
                let q = draw(&mut c.rng, dim, m, 40);
                let a = bits(&ask(&*objs[k].o, &q));
                hist.push(format!("{q:?} on {k}"));
                if a.is_none() {
                    continue;
                }
                if objs[k].mutated {
                    c.cover("after-mutation");
                }
                if c.rng.chance(0.5) {
                    c.cover("fresh");
                    let f = make(kind, &objs[k].pts);
                    let b = bits(&ask(&*f, &q));
                    c.check(a == b, "history", || format!("{q:?} answers differently from a fresh {kind:?} with points {} after {hist:?}", harness::shows(&objs[k].pts)));
                }
                objs[k].log.push((q, a));
            }
        }
    }
    // everything once more
    for x in &objs {
        for (q, a) in &x.log {
            c.cover("repeat");
            let b = bits(&ask(&*x.o, q));
            c.check(&b == a, "repeat", || format!("{q:?} answered differently at the end: {kind:?} {} after {hist:?}", harness::shows(&x.pts)));
        }
    }
    if repeated {
        c.nontrivial(hash_ps(kind as u64 * 64 + len as u64, &cv.pts));
    }
    if c.want_sample() {
        c.sample(format!("{kind:?} {} history {hist:?}", harness::shows(&cv.pts)));
    }
}
fn spline(c: &mut Case) {
    c.cover("bspline");
    let s = gen::spline_case(c, 0, 2, if IS32 { 6 } else { 60 }, &splines::SPLINES);
    let mk = |pts: &[Co]| splines::spline(s.d, &s.knots, pts).expect("instantiated");
    let first = match mk(&s.pts) {
        Ok(x) => x,
        Err(e) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
    };
    let mut objs = vec![(first, s.pts.clone(), Vec::<(SQ, Option<Vec<u64>>)>::new())];
    let len = 10 + c.rng.below(30);
    let mut hist: Vec<String> = Vec::new();
    for _ in 0..len {
        let k = c.rng.below(objs.len());
        if k > 0 {
            c.cover("other-object");
        }
        match c.rng.below(10) {
            0 if objs.len() < 3 => {
                if c.rng.chance(0.6) {
                    c.cover("copied");
                    hist.push(format!("copy {k}"));
                    let o = objs[k].0.copy();
                    let (p, l) = (objs[k].1.clone(), objs[k].2.clone());
                    objs.push((o, p, l));
                } else {
                    let (pts, _) = gen::points(&mut c.rng, s.dim, s.c(), 6);
                    if let Ok(o) = mk(&pts) {
                        hist.push("new".into());
                        objs.push((o, pts, vec![]));
                    }
                }
            }
            1 => {
                c.cover("ctrl");
                let (p, kn) = (objs[k].0.ctrl(), objs[k].0.knots());
                let ok = bits_ps(&p) == bits_ps(&objs[k].1) && bits_ps(&[kn.clone()]) == bits_ps(&[s.knots.clone()]);
                c.check(ok, "accessor", || format!("read back points {} knots {:?}: {} after {hist:?}", harness::shows(&p), kn, s.show()));
            }
            2 | 3 if !objs[k].2.is_empty() => {
                let i = c.rng.below(objs[k].2.len());
                let q = objs[k].2[i].0.clone();
                c.cover("repeat");
                let a = bits(&sask(&*objs[k].0, &q));
                hist.push(format!("again {q:?} on {k}"));
                let ok = a == objs[k].2[i].1;
                c.check(ok, "repeat", || format!("{q:?} answered differently the second time: {} after {hist:?}", s.show()));
            }
            _ => {
                let q = sdraw(&mut c.rng, &s, 30);
                let a = bits(&sask(&*objs[k].0, &q));
                hist.push(format!("{q:?} on {k}"));
                if a.is_none() {
                    continue;
                }
                if c.rng.chance(0.5) {
                    c.cover("fresh");
                    if let Ok(f) = mk(&objs[k].1) {
                        let b = bits(&sask(&*f, &q));
                        c.check(a == b, "history", || format!("{q:?} answers differently from a fresh spline: {} after {hist:?}", s.show()));
                    }
                }
                objs[k].2.push((q, a));
            }
        }
    }
    for x in &objs {
        for (q, a) in &x.2 {
            c.cover("repeat");
            let b = bits(&sask(&*x.0, q));
            c.check(&b == a, "repeat", || format!("{q:?} answered differently at the end: {} after {hist:?}", s.show()));
        }
    }
    c.nontrivial(hash_ps(1000 + len as u64, &s.pts));
    if c.want_sample() {
        c.sample(format!("{} history {hist:?}", s.show()));
    }
}
