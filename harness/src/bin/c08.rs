//! C08: distance from a point to a curve.
use harness::{chk::lin, curves::*, gen, hash_f, hash_ps, mon::*, refm, show, shows, Co, F, IS32, RT, TINY_SQ};

fn main() {
    let spec = Spec {
        prop: "C08",
        quick: 160_000,
        mult: 40,
        rule: "random quadratics, cubics and general curves x dimension x degree x query point (random, far, on the curve, near it, near an end, beyond an end); distinct by type, points and query, non-trivial when the curve is not a single point",
        need: &[("kind:quadratic", 500), ("kind:cubic", 500), ("kind:bezier", 500), ("searched", 10000), ("nearest:start", 100), ("nearest:end", 100), ("nearest:inside", 1000), ("query:on-curve", 500), ("fine-pass-gain", 100), ("query:last-interval", 100), ("query:first-interval", 100), ("degenerate:apart", 20)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[Kind::Quad, Kind::Cubic, Kind::Bez], if IS32 { 6 } else { 40 });
        let obj = make(cv.kind, &cv.pts);
        let dim = cv.dim;
        let m0 = refm::max_abs(&cv.pts);
        let extent: Vec<f64> = (0..dim)
            .map(|k| {
                let v = cv.pts.iter().map(|p| p[k] as f64);
                v.clone().fold(f64::NEG_INFINITY, f64::max) - v.fold(f64::INFINITY, f64::min)
            })
            .collect();
        // a curve without extent is queried on the scale of its coordinates
        let extent: Vec<f64> = if extent.iter().all(|e| *e == 0.0) { vec![if m0 > 0.0 { m0 } else { 1.0 }; dim] } else { extent };
        let q: Co = match c.rng.below(7) {
            0 => {
                let far = 10f64.powi(c.rng.range(0, 3) as i32);
                (0..dim).map(|k| (cv.pts[0][k] as f64 + c.rng.sym() * extent[k] * far) as F).collect()
            }
            1 | 2 => {
                c.cover("query:on-curve");
                let t = gen::param(&mut c.rng);
                refm::bezier(&cv.pts, t).iter().map(|x| *x as F).collect()
            }
            3 => {
                let last = c.rng.chance(0.5);
                c.cover(if last { "query:last-interval" } else { "query:first-interval" });
                let t = if last { 1.0 - c.rng.unit() / 64.0 } else { c.rng.unit() / 64.0 };
                let s = 0.02 * c.rng.unit();
                let p = refm::bezier(&cv.pts, t as F);
                (0..dim).map(|k| (p[k] + c.rng.sym() * extent[k] * s) as F).collect()
            }
            4 => {
                let t = gen::param(&mut c.rng);
                let s = 10f64.powi(-(c.rng.range(0, 4) as i32));
                let p = refm::bezier(&cv.pts, t);
                (0..dim).map(|k| (p[k] + c.rng.sym() * extent[k] * s) as F).collect()
            }
            5 => {
                // beyond an end, along the end tangent
                let (a, b) = if c.rng.chance(0.5) { (0, 1.min(cv.n - 1)) } else { (cv.n - 1, cv.n.max(2) - 2) };
                let u = c.rng.unit() * 2.0;
                (0..dim).map(|k| (cv.pts[a][k] as f64 + u * (cv.pts[a][k] as f64 - cv.pts[b][k] as f64)) as F).collect()
            }
            _ => cv.pts[c.rng.below(cv.n)].clone(),
        };
        let got = obj.distance(&q).unwrap();
        if cv.n > 1 && cv.pts.iter().all(|p| p == &cv.pts[0]) && q != cv.pts[0] {
            c.cover("degenerate:apart");
        }
        let g = got as f64;
        let m = m0.max(q.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs())));
        let tol = lin(m * (dim as f64).sqrt()) + TINY_SQ;
        let ctx = || format!("distance of {} to {:?} {} = {got:?}", show(&q), cv.kind, shows(&cv.pts));
        c.check(g.is_finite() && g >= 0.0, "finite", ctx);
        let mut s = refm::Search::new(&cv.pts, &q);
        let coarse: Vec<f64> = (0..=64).map(|i| s.d(i as f64 / 64.0)).collect();
        let best = coarse.iter().cloned().fold(f64::INFINITY, f64::min);
        c.check(g <= best + tol, "coarse", || format!("larger than the best of the 65 samples {best:e}: {}", ctx()));
        // one case in eight is searched thoroughly, the others judged on a grid around the nearest samples
        let full = c.idx % 8 == 0 || c.verbose;
        let mut s = s;
        // the nearest samples (several when tied)
        let mut local = f64::NEG_INFINITY;
        let mut at = 0;
        for i in 0..=64 {
            if coarse[i] <= best * (1.0 + RT) + 2.0 * tol {
                let t = i as f64 / 64.0;
                let (a, b) = ((t - 1.0 / 128.0).max(0.0), (t + 1.0 / 128.0).min(1.0));
                let v = if full { s.min_over(a, b, 32) } else { (0..=24).map(|i| s.d(a + (b - a) * i as f64 / 24.0)).fold(f64::INFINITY, f64::min) };
                if v > local {
                    local = v;
                }
                if coarse[i] == best {
                    at = i;
                }
            }
        }
        let speed = if full { s.max_speed() } else { s.speed_on(32) };
        // what the coarser grids can miss
        let speed = if full { speed } else { 1.3 * speed + 1e-9 * m };
        let speed = if g > local + speed / 1000.0 + tol { s.max_speed().max(speed) } else { speed };
        c.check(g <= local + speed / 1000.0 + tol, "refined", || format!("exceeds the local minimum {local:e} by more than a thousandth of the speed {speed:e}: {}", ctx()));
        if best - local > speed / 500.0 {
            c.cover("fine-pass-gain");
        }
        let mut truth = if full { s.min_over(0.0, 1.0, 512).min(local) } else { best - speed / 100.0 };
        if full {
            c.cover("searched");
        }
        if g < truth - tol {
            // make sure no narrow basin was overlooked before calling this a violation
            truth = if full { truth } else { f64::INFINITY };
            for grid in [2048, ((1 << 28) / (cv.n * cv.n + 64)).clamp(8192, 1 << 20)] {
                truth = truth.min(s.min_over(0.0, 1.0, grid));
                if g >= truth - tol {
                    break;
                }
            }
        }
        c.check(g >= truth - tol, "below-minimum", || format!("smaller than the true minimum {truth:e}: {}", ctx()));
        c.cover(match at {
            0 => "nearest:start",
            64 => "nearest:end",
            _ => "nearest:inside",
        });
        if cv.pts.iter().any(|p| p != &cv.pts[0]) {
            c.nontrivial(hash_f(hash_ps(cv.kind as u64, &cv.pts), &q));
        }
        if c.want_sample() {
            c.sample(ctx());
        }
    });
}
