//! C12: invariance under change of frame, reversal and extra axes.
use harness::{chk::*, curves::*, gen, hash_ps, mon::*, refm, show, shows, splines, Co, EPS, F, IS32, RT, TINY, TINY_SQ};

/// What the map does to one coordinate: new axis `to` holds `s * x[from] + v`.
struct Map {
    name: &'static str,
    from: Vec<usize>, // usize::MAX: a constant axis
    s: f64,
    v: Vec<f64>,
    /// constants added must be exact for the map to be exact
    exact: bool,
}
impl Map {
    fn pt(&self, p: &[F]) -> Co {
        (0..self.from.len()).map(|k| if self.from[k] == usize::MAX { self.v[k] as F } else { (p[self.from[k]] as f64 * self.s + self.v[k]) as F }).collect()
    }
    /// image of a result point given in the old frame
    fn img(&self, p: &[F]) -> Vec<f64> {
        (0..self.from.len()).map(|k| if self.from[k] == usize::MAX { self.v[k] } else { p[self.from[k]] as f64 * self.s + self.v[k] }).collect()
    }
    fn img_vec(&self, p: &[F]) -> Vec<f64> {
        (0..self.from.len()).map(|k| if self.from[k] == usize::MAX { 0.0 } else { p[self.from[k]] as f64 * self.s }).collect()
    }
}

fn main() {
    let spec = Spec {
        prop: "C12",
        quick: 600_000,
        mult: 40,
        rule: "random curve or B-spline x one change of frame (translation, scaling by 2^k, axis permutation, garbage in the other axes, extra constant axes, reversal); evaluation, split, derivative, samplers, box, arc length, distance, predicates compared between both frames; distinct by type, points and change, non-trivial when the points are not all equal",
        need: &[("map:translate", 2000), ("map:scale", 2000), ("map:permute", 2000), ("map:garbage", 2000), ("map:extra-axes", 2000), ("map:reverse", 2000), ("kind:line", 2000), ("kind:quadratic", 2000), ("kind:cubic", 2000), ("kind:bezier", 2000), ("kind:segment-cubic", 500), ("kind:bspline", 2000), ("op:bbox", 2000), ("op:arclen", 2000), ("op:distance", 1000), ("op:linear", 1000), ("op:distance-definite", 500)],
        no_alloc: false,
    };
    drive(spec, |c| {
        if c.rng.chance(0.2) {
            spline_case(c);
            return;
        }
        let cv = gen::curve(c, &[], if IS32 { 4 } else { 30 });
        let (dim, n) = (cv.dim, cv.n);
        let obj = make(cv.kind, &cv.pts);
        let which = c.rng.below(6);
        if cv.pts.iter().any(|p| p != &cv.pts[0]) {
            c.nontrivial(hash_ps(cv.kind as u64 * 8 + which as u64, &cv.pts));
        }
        if which == 5 {
            reverse(c, &cv, &*obj);
            return;
        }
        let map = match draw_map(c, dim, refm::max_abs(&cv.pts), which, &|d2| has(cv.kind, d2, n)) {
            Some(m) => m,
            None => return,
        };
        c.cover(map.name);
        let mut moved: Vec<Co> = cv.pts.iter().map(|p| map.pt(p)).collect();
        let mut keep: Option<usize> = None;
        if which == 3 {
            // garbage everywhere but on one axis
            let k0 = c.rng.below(dim);
            keep = Some(k0);
            let g = 10f64.powi(c.rng.range(0, if IS32 { 8 } else { 60 }) as i32);
            for p in moved.iter_mut() {
                for k in 0..dim {
                    if k != k0 {
                        p[k] = (c.rng.sym() * g) as F;
                    }
                }
            }
        }
        let om = make(cv.kind, &moved);
        let what = || format!("{} (from {:?} scale {:e} shift {:?} keep {keep:?}) of {:?} {}", map.name, map.from, map.s, map.v, cv.kind, shows(&cv.pts));
        let d2 = map.from.len();
        let axes: Vec<usize> = (0..d2).filter(|k| keep.is_none() || keep == Some(*k)).collect();
        let old = |k: usize| if map.from[k] == usize::MAX { 0.0 } else { refm::axis_max(&cv.pts, map.from[k]) };
        // size of coordinate k in both frames
        let sz = |k: usize| (old(k) * map.s).max(map.v[k].abs());
        let sub = |p: &[F]| -> Co { axes.iter().map(|k| p[*k]).collect() };
        let subw = |p: Vec<f64>| -> Vec<f64> { axes.iter().map(|k| p[*k]).collect() };
        let tol = |i: usize| RT * sz(axes[i]) + TINY * (1.0 + map.s);
        for _ in 0..2 {
            let t = gen::param(&mut c.rng);
            for ((nm, a), (_, b)) in om.evals(t).iter().zip(obj.evals(t).iter()) {
                near(c, "eval", &sub(a), &subw(map.img(b)), tol, || format!("{nm} at {t:?}: {}", what()));
            }
            for &k in &axes {
                if map.from[k] == usize::MAX {
                    continue;
                }
                if let (Some(a), Some(b)) = (om.axis(t, k), obj.axis(t, map.from[k])) {
                    near1(c, "axis", a, b as f64 * map.s + map.v[k], RT * sz(k) + TINY * (1.0 + map.s), || format!("axis {k} at {t:?}: {}", what()));
                }
                if let (Some(a), Some(b)) = (om.dd(t, k), obj.dd(t, map.from[k])) {
                    near1(c, "dd", a, b as f64 * map.s, 16.0 * (RT * sz(k) + TINY * (1.0 + map.s)), || format!("dd {k} at {t:?}: {}", what()));
                }
            }
        }
        {
            let (t, s) = (gen::param(&mut c.rng), gen::param(&mut c.rng));
            let ((a1, b1), (a2, b2)) = (om.split(t), obj.split(t));
            near(c, "split-left", &sub(&a1.eval(s)), &subw(map.img(&a2.eval(s))), tol, || format!("split {t:?} at {s:?}: {}", what()));
            near(c, "split-right", &sub(&b1.eval(s)), &subw(map.img(&b2.eval(s))), tol, || format!("split {t:?} at {s:?}: {}", what()));
        }
        if n >= 2 {
            if let (Some(a), Some(b)) = (om.derivative(), obj.derivative()) {
                let t = gen::param(&mut c.rng);
                near(c, "derivative", &sub(&a.eval(t)), &subw(map.img_vec(&b.eval(t))), |i| 2.0 * n as f64 * tol(i), || format!("derivative at {t:?}: {}", what()));
            }
        }
        if let (Some(a), Some(b)) = (om.bbox(), obj.bbox()) {
            c.cover("op:bbox");
            for &k in &axes {
                let (lo, hi) = if map.from[k] == usize::MAX { (map.v[k], map.v[k]) } else { (b[map.from[k]].0 as f64 * map.s + map.v[k], b[map.from[k]].1 as f64 * map.s + map.v[k]) };
                let t2 = 2.0 * RT * sz(k) + 16.0 * EPS * (1.0 + map.s) + TINY * (1.0 + map.s);
                near1(c, "bbox", a[k].0, lo, t2, || format!("lower side {k}: {}", what()));
                near1(c, "bbox", a[k].1, hi, t2, || format!("upper side {k}: {}", what()));
            }
        }
        if keep.is_some() {
            return;
        }
        let big = (0..d2).map(sz).fold(0.0, f64::max) * (d2 as f64).sqrt();
        let slack = TINY_SQ * (1.0 + map.s);
        let nst = gen::steps(&mut c.rng, 60);
        if let (Some(a), Some(b)) = (om.arclen(nst), obj.arclen(nst)) {
            c.cover("op:arclen");
            near1(c, "arclen", a, b as f64 * map.s, (2.0 * RT + 16.0 * nst as f64 * EPS * n as f64) * big + slack, || format!("arclen({nst}): {}", what()));
        }
        if c.rng.chance(0.4) {
            let m0 = refm::max_abs(&cv.pts);
            let q: Co = if c.rng.chance(0.5) {
                (0..dim).map(|_| (c.rng.sym() * m0 * 2.0) as F).collect()
            } else {
                let t = gen::param(&mut c.rng);
                let j = c.rng.unit() * 0.05;
                refm::bezier(&cv.pts, t).iter().map(|x| (x + j * m0) as F).collect()
            };
            let q2 = map.pt(&q);
            if let (Some(a), Some(b)) = (om.distance(&q2), obj.distance(&q)) {
                c.cover("op:distance");
                let mq = q2.iter().fold(big, |m, x| m.max((*x as f64).abs() * (d2 as f64).sqrt()));
                let mut t3 = 4.0 * RT * mq + slack;
                if cv.kind == Kind::Line {
                    let l = refm::dist(&refm::wide(&cv.pts[0]), &refm::wide(&cv.pts[1]));
                    if l.min(l * map.s) < 2.0 * EPS.sqrt() {
                        t3 += 2.0 * l * map.s;
                    }
                    // the foot of the perpendicular is only as good as the segment is long
                    let l2 = l * map.s;
                    t3 += 64.0 * EPS * mq * (mq / l2.max(1e-300)).min(1e6);
                } else {
                    let (speed, definite) = search_definite(&cv.pts, &q);
                    if definite {
                        c.cover("op:distance-definite");
                        t3 += speed * map.s / 500.0;
                    } else {
                        t3 += speed * map.s / 64.0;
                    }
                }
                near1(c, "distance", a, b as f64 * map.s, t3, || format!("distance to {}: {}", show(&q), what()));
            }
        }
        if (which == 1 || which == 2) && n >= 3 {
            // predicates: exact maps only; the decision may flip within rounding of the boundary
            let tolp = (refm::max_abs(&cv.pts) * c.rng.unit()) as F;
            let near_edge = |f: F| -> bool { [1.0 - 1e-3, 1.0 + 1e-3].iter().any(|g| obj.is_linear(f * *g as F) != obj.is_linear(f)) };
            if let (Some(a), Some(b)) = (om.is_linear((tolp as f64 * map.s) as F), obj.is_linear(tolp)) {
                let chord = refm::dist(&refm::wide(&cv.pts[0]), &refm::wide(&cv.pts[n - 1]));
                if !near_edge(tolp) && chord.min(chord * map.s) > 4.0 * EPS.sqrt() {
                    c.cover("op:linear");
                    c.check(a == b, "is_linear", || format!("is_linear({tolp:?}) {b} becomes {a}: {}", what()));
                }
            }
            if let (Some(a), Some(b)) = (om.is_a_point((tolp as f64 * map.s) as F), obj.is_a_point(tolp)) {
                let edge = [1.0 - 1e-3, 1.0 + 1e-3].iter().any(|g| obj.is_a_point(tolp * *g as F) != Some(b));
                if !edge {
                    c.check(a == b, "is_a_point", || format!("is_a_point({tolp:?}) {b} becomes {a}: {}", what()));
                }
            }
        }
        if c.want_sample() {
            c.sample(what());
        }
        let _ = map.exact;
    });
}
fn has(kind: Kind, dim: usize, n: usize) -> bool {
    DIMS.contains(&dim) && (kind != Kind::Bez || has_bez(dim, n))
}
fn draw_map(c: &mut Case, dim: usize, m: f64, which: usize, ok: &dyn Fn(usize) -> bool) -> Option<Map> {
    let id: Vec<usize> = (0..dim).collect();
    let zero = vec![0.0; dim];
    Some(match which {
        0 => {
            let f = 10f64.powi(c.rng.range(-2, 2) as i32);
            // the shift itself must be representable
            let v: Vec<f64> = (0..dim).map(|_| if c.rng.chance(0.2) { 0.0 } else { (c.rng.sym() * f * m) as F as f64 }).collect();
            Map { name: "map:translate", from: id, s: 1.0, v, exact: false }
        }
        1 => {
            let e = c.rng.range(if IS32 { -20 } else { -60 }, if IS32 { 20 } else { 60 });
            Map { name: "map:scale", from: id, s: 2f64.powi(e as i32), v: zero, exact: true }
        }
        2 => {
            if dim < 2 {
                return None;
            }
            let mut f = id;
            for i in (1..dim).rev() {
                let j = c.rng.below(i + 1);
                f.swap(i, j);
            }
            Map { name: "map:permute", from: f, s: 1.0, v: zero, exact: true }
        }
        3 => {
            if dim < 2 {
                return None;
            }
            Map { name: "map:garbage", from: id, s: 1.0, v: zero, exact: true }
        }
        _ => {
            let d2s: Vec<usize> = DIMS.iter().copied().filter(|d| *d > dim && ok(*d)).collect();
            if d2s.is_empty() {
                return None;
            }
            let d2 = *c.rng.pick(&d2s);
            let mut from = id;
            let mut v = zero;
            while from.len() < d2 {
                let at = c.rng.below(from.len() + 1);
                from.insert(at, usize::MAX);
                let x = if c.rng.chance(0.5) { 0.0 } else { (c.rng.sym() * m) as F as f64 };
                v.insert(at, x);
            }
            Map { name: "map:extra-axes", from, s: 1.0, v, exact: true }
        }
    })
}
/// maximal speed, and whether the nearest of the 65 samples is unambiguous
fn search_definite(pts: &[Co], q: &[F]) -> (f64, bool) {
    let mut s = refm::Search::new(pts, q);
    let v: Vec<f64> = (0..=64).map(|i| s.d(i as f64 / 64.0)).collect();
    let best = v.iter().cloned().fold(f64::INFINITY, f64::min);
    let at = v.iter().position(|x| *x == best).unwrap();
    let m = refm::max_abs(pts).max(q.iter().fold(0.0, |m: f64, x| m.max((*x as f64).abs())));
    // a second candidate that is not next to the first one makes the choice depend on rounding
    let definite = (0..=64).all(|i: usize| i.abs_diff(at) <= 1 || v[i] > best + 1e-3 * best + 64.0 * RT * m);
    (s.max_speed(), definite)
}
fn reverse(c: &mut Case, cv: &gen::Curve, obj: &dyn DynCurve) {
    c.cover("map:reverse");
    let mut pts = cv.pts.clone();
    pts.reverse();
    let om = make(cv.kind, &pts);
    let what = || format!("reversal of {:?} {}", cv.kind, shows(&cv.pts));
    let tol = |k: usize| 2.0 * lin(refm::axis_max(&cv.pts, k));
    // parameters for which 1-t is exact
    let dy = |c: &mut Case| c.rng.range(0, 1024) as F / 1024.0;
    for _ in 0..2 {
        let t = dy(c);
        for ((nm, a), (_, b)) in om.evals(1.0 - t).iter().zip(obj.evals(t).iter()) {
            same(c, "reverse-eval", a, b, tol, || format!("{nm} at {t:?}: {}", what()));
        }
    }
    let (t, s) = (dy(c), dy(c));
    let ((a1, b1), (a2, b2)) = (om.split(1.0 - t), obj.split(t));
    same(c, "reverse-split", &a1.eval(1.0 - s), &b2.eval(s), tol, || format!("split {t:?} at {s:?}: {}", what()));
    same(c, "reverse-split", &b1.eval(1.0 - s), &a2.eval(s), tol, || format!("split {t:?} at {s:?}: {}", what()));
    if cv.n >= 2 {
        if let (Some(a), Some(b)) = (om.derivative(), obj.derivative()) {
            let want: Vec<f64> = b.eval(t).iter().map(|x| -(*x as f64)).collect();
            near(c, "reverse-derivative", &a.eval(1.0 - t), &want, |k| 2.0 * cv.n as f64 * tol(k), || format!("derivative at {t:?}: {}", what()));
        }
    }
    if let (Some(a), Some(b)) = (om.bbox(), obj.bbox()) {
        c.cover("op:bbox");
        for k in 0..cv.dim {
            let t2 = tol(k) + 32.0 * EPS;
            near1(c, "reverse-bbox", a[k].0, b[k].0 as f64, t2, || format!("lower side {k}: {}", what()));
            near1(c, "reverse-bbox", a[k].1, b[k].1 as f64, t2, || format!("upper side {k}: {}", what()));
        }
    }
    let m = refm::max_abs(&cv.pts) * (cv.dim as f64).sqrt();
    let nst = gen::steps(&mut c.rng, 60);
    if let (Some(a), Some(b)) = (om.arclen(nst), obj.arclen(nst)) {
        c.cover("op:arclen");
        near1(c, "reverse-arclen", a, b as f64, (2.0 * RT + 16.0 * nst as f64 * EPS * cv.n as f64) * m + TINY_SQ, || format!("arclen({nst}): {}", what()));
    }
    let j = c.rng.unit();
    let tq = gen::param(&mut c.rng);
    let q: Co = refm::bezier(&cv.pts, tq).iter().map(|x| (x + j * m * 0.1) as F).collect();
    if let (Some(a), Some(b)) = (om.distance(&q), obj.distance(&q)) {
        c.cover("op:distance");
        let mq = q.iter().fold(m, |m, x| m.max((*x as f64).abs() * (cv.dim as f64).sqrt()));
        let mut t3 = 4.0 * RT * mq + TINY_SQ;
        if cv.kind == Kind::Line {
            let l = refm::dist(&refm::wide(&cv.pts[0]), &refm::wide(&cv.pts[1]));
            if l < 2.0 * EPS.sqrt() {
                t3 += 2.0 * l;
            }
            t3 += 64.0 * EPS * mq * (mq / l.max(1e-300)).min(1e6);
        } else {
            let (speed, definite) = search_definite(&cv.pts, &q);
            if definite {
                c.cover("op:distance-definite");
            }
            t3 += speed / if definite { 500.0 } else { 64.0 };
        }
        near1(c, "reverse-distance", a, b as f64, t3, || format!("distance to {}: {}", show(&q), what()));
    }
    if c.want_sample() {
        c.sample(what());
    }
}
fn spline_case(c: &mut Case) {
    c.cover("kind:bspline");
    let s = gen::spline_case(c, 0, 1, if IS32 { 4 } else { 30 }, &splines::SPLINES);
    let (d, cc, dim) = (s.d, s.c(), s.dim);
    let sp = match splines::spline(d, &s.knots, &s.pts).expect("instantiated") {
        Ok(x) => x,
        Err(_) => return,
    };
    let which = *c.rng.pick(&[0usize, 1, 2, 3, 4]);
    let ok = |d2: usize| splines::SPLINES.iter().any(|(q, dm, ms)| *q == d2 && d <= *dm && ms.contains(&s.m));
    let map = match draw_map(c, dim, refm::max_abs(&s.pts), which, &ok) {
        Some(m) => m,
        None => return,
    };
    c.cover(map.name);
    let mut moved: Vec<Co> = s.pts.iter().map(|p| map.pt(p)).collect();
    let mut keep = None;
    if which == 3 {
        let k0 = c.rng.below(dim);
        keep = Some(k0);
        let g = 10f64.powi(c.rng.range(0, if IS32 { 8 } else { 60 }) as i32);
        for p in moved.iter_mut() {
            for k in 0..dim {
                if k != k0 {
                    p[k] = (c.rng.sym() * g) as F;
                }
            }
        }
    }
    let sm = match splines::spline(d, &s.knots, &moved).expect("instantiated") {
        Ok(x) => x,
        Err(e) => {
            c.fail("construct", format!("{e:?}: {}", s.show()));
            return;
        }
    };
    let d2 = map.from.len();
    let axes: Vec<usize> = (0..d2).filter(|k| keep.is_none() || keep == Some(*k)).collect();
    let what = || format!("{} (from {:?} scale {:e} shift {:?} keep {keep:?}) of {}", map.name, map.from, map.s, map.v, s.show());
    let sub = |p: &[F]| -> Co { axes.iter().map(|k| p[*k]).collect() };
    let subw = |p: Vec<f64>| -> Vec<f64> { axes.iter().map(|k| p[*k]).collect() };
    let ts = gen::spline_params(&mut c.rng, &s, 2);
    let (mut x, mut y) = (Some(sp.copy()), Some(sm.copy()));
    let mut j = 0;
    while let (Some(p), Some(q)) = (&x, &y) {
        for t in ts.iter().step_by(if j == 0 { 1 } else { 3 }) {
            let i = refm::span(&s.knots, d, cc, *t).unwrap();
            let sz = |k: usize| -> f64 {
                let o = if map.from[k] == usize::MAX { 0.0 } else { refm::deriv_bound(&s.knots, &s.pts, d, j, i, map.from[k]) * map.s };
                // rounding of the shifted coordinates is amplified like the coordinates themselves
                let v = map.v[k].abs();
                if v > 0.0 {
                    let one = vec![vec![v as F]; s.pts.len()];
                    o.max(refm::deriv_bound(&s.knots, &one, d, j, i, 0))
                } else {
                    o
                }
            };
            if axes.iter().any(|k| !(sz(*k).max(sz(*k) / map.s) < F::MAX as f64 * 1e-3)) {
                return;
            }
            match (p.eval(*t), q.eval(*t)) {
                (Ok(a), Ok(b)) => {
                    let img = if j == 0 { map.img(&a) } else { map.img_vec(&a) };
                    near(c, "bspline-eval", &sub(&b), &subw(img), |i| 2.0 * RT * sz(axes[i]) + TINY * (1.0 + map.s), || format!("derivative {j} at {t:?}: {}", what()));
                }
                (a, b) => c.fail("bspline-eval", format!("{a:?} / {b:?} at {t:?}: {}", what())),
            }
        }
        let (nx, ny) = (p.derivative(), q.derivative());
        x = nx;
        y = ny;
        j += 1;
        if gen::interior_mult(&s.knots, d, cc) > d {
            break;
        }
    }
    if keep.is_none() {
        c.cover("op:arclen");
        let nst = gen::steps(&mut c.rng, 60);
        let m = (0..d2).map(|k| (if map.from[k] == usize::MAX { 0.0 } else { refm::axis_max(&s.pts, map.from[k]) * map.s }).max(map.v[k].abs())).fold(0.0, f64::max) * (d2 as f64).sqrt();
        let tol = (2.0 * RT + 32.0 * nst as f64 * EPS * (d + 1) as f64) * m + TINY_SQ * (1.0 + map.s);
        near1(c, "bspline-arclen", sm.arclen(nst), sp.arclen(nst) as f64 * map.s, tol, || format!("arclen({nst}): {}", what()));
    }
    c.nontrivial(hash_ps(1000 + which as u64, &s.pts));
    if c.want_sample() {
        c.sample(what());
    }
}
