//! C09: distance from a point to a line segment.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, show, shows, Co, EPS, F, IS32, TINY_SQ};

fn main() {
    let spec = Spec {
        prop: "C09",
        quick: 8_000_000,
        mult: 40,
        rule: "random segments (also degenerate and axis-aligned) x dimension x query point placed before, beside, beyond, on, at an end of or far from the segment; distinct by points and query, non-trivial when the ends differ",
        need: &[("foot:before", 1000), ("foot:inside", 1000), ("foot:beyond", 1000), ("degenerate", 100), ("degenerate:apart", 1000), ("foot:at-end", 100), ("dim:1", 100), ("dim>=4", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let dim = gen::dimension(&mut c.rng);
        c.cover(if dim == 1 {
            "dim:1"
        } else if dim >= 4 {
            "dim>=4"
        } else {
            "dim:2-3"
        });
        let (mut p, class) = gen::points(&mut c.rng, dim, 2, if IS32 { 6 } else { 40 });
        c.cover(class);
        if c.rng.chance(0.05) {
            // nearly coincident ends
            let e = 10f64.powi(-(c.rng.range(3, 12) as i32));
            for k in 0..dim {
                p[1][k] = (p[0][k] as f64 + c.rng.sym() * e) as F;
            }
        }
        let (a, b) = (refm::wide(&p[0]), refm::wide(&p[1]));
        let len = refm::dist(&a, &b);
        // a query with chosen foot parameter and offset
        let u = match c.rng.below(7) {
            6 => {
                // a hair beside an end
                let e = 10f64.powf(-(if IS32 { 6.0 } else { 14.0 }) * c.rng.unit()) * if c.rng.chance(0.5) { 1.0 } else { -1.0 };
                if c.rng.chance(0.5) { e } else { 1.0 + e }
            }
            0 => -c.rng.unit() * 3.0,
            1 => 1.0 + c.rng.unit() * 3.0,
            2 => *c.rng.pick(&[0.0, 1.0]),
            3 => c.rng.sym() * 100.0,
            _ => c.rng.unit(),
        };
        let h = match c.rng.below(5) {
            0 => 0.0,
            4 => 10f64.powf(-14.0 * c.rng.unit()),
            1 => 1e-3,
            2 => 1.0,
            _ => 10.0,
        };
        // distances are on the scale of the segment, at times on that of its coordinates (always when it has no length)
        let unit = if len == 0.0 || c.rng.chance(0.1) { *c.rng.pick(&[1.0, 1e-3, 30.0]) * refm::max_abs(&p).max(len).max(1e-3) } else { len };
        let q: Co = if c.rng.chance(0.15) {
            (0..dim).map(|k| (a[k] + c.rng.sym() * unit * 5.0) as F).collect()
        } else {
            let mut w: Vec<f64> = (0..dim).map(|_| c.rng.sym() * h * unit).collect();
            if len > 0.0 {
                // perpendicular part only
                let dot: f64 = (0..dim).map(|k| w[k] * (b[k] - a[k]) / len).sum();
                for k in 0..dim {
                    w[k] -= dot * (b[k] - a[k]) / len;
                }
            }
            (0..dim).map(|k| (a[k] + u * (b[k] - a[k]) + w[k]) as F).collect()
        };
        let got = line(&p).distance(&q).unwrap();
        let (want, foot) = refm::segment_distance(&p[0], &p[1], &q);
        let m = refm::max_abs(&p).max(q.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs())));
        let small = len * len < 4.0 * EPS;
        let tol = lin(m * (dim as f64).sqrt()) + TINY_SQ + if small { len } else { 0.0 };
        near1(c, "distance", got, want, tol, || format!("{} to segment {} (foot {foot:e})", show(&q), shows(&p)));
        c.cover(if small {
            "degenerate"
        } else if (foot.abs() < 1e-3) || (foot - 1.0).abs() < 1e-3 {
            "foot:at-end"
        } else if foot < 0.0 {
            "foot:before"
        } else if foot > 1.0 {
            "foot:beyond"
        } else {
            "foot:inside"
        });
        if small && want > 10.0 * tol {
            c.cover("degenerate:apart");
        }
        if p[0] != p[1] {
            c.nontrivial(hash_f(hash_ps(0, &p), &q));
        }
        if c.want_sample() {
            c.sample(format!("{} to segment {} = {got:?}", show(&q), shows(&p)));
        }
    });
}
