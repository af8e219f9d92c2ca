//! C04: derivative curves.
use harness::{chk::*, curves::*, gen, hash_f, hash_ps, mon::*, refm, show, shows, F, IS32};

fn main() {
    let spec = Spec {
        prop: "C04",
        quick: 1_500_000,
        mult: 40,
        rule: "random control point configurations x curve type x dimension x degree, all orders of derivative down to a constant, at random parameters; distinct by type, points and parameter, non-trivial when the points are not all equal",
        need: &[("kind:line", 100), ("kind:quadratic", 100), ("kind:cubic", 100), ("kind:bezier", 1000), ("order:1", 1000), ("order:2", 1000), ("order>=3", 1000), ("degree>=7", 100)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let cv = gen::curve(c, &[Kind::Line, Kind::Quad, Kind::Cubic, Kind::Bez], if IS32 { 20 } else { 90 });
        if cv.n < 2 {
            return;
        }
        if cv.n >= 8 {
            c.cover("degree>=7");
        }
        let sc: Vec<f64> = (0..cv.dim).map(|k| refm::axis_max(&cv.pts, k)).collect();
        let varied = cv.pts.iter().any(|p| p != &cv.pts[0]);
        let mut cur = make(cv.kind, &cv.pts);
        for order in 1..cv.n {
            c.cover(match order {
                1 => "order:1",
                2 => "order:2",
                _ => "order>=3",
            });
            let next = cur.derivative();
            if next.is_none() && cv.kind == Kind::Bez && !has_bez(cv.dim, cv.n - order) {
                break;
            }
            let Some(next) = next else {
                c.fail("degree", format!("no derivative of order {order} of {:?} {}", cv.kind, shows(&cv.pts)));
                return;
            };
            c.check(next.n() == cv.n - order && next.dim() == cv.dim, "degree", || format!("derivative {order} of {:?} with {} points has {} points", cv.kind, cv.n, next.n()));
            let gain = refm::deriv_gain(cv.n - 1, order);
            if gain * refm::max_abs(&cv.pts) as f64 > F::MAX as f64 / 64.0 {
                // the derivative's control points need not be representable
                c.cover("unrepresentable");
                break;
            }
            for _ in 0..3 {
                let t = gen::param(&mut c.rng);
                let want = refm::bezier_deriv(&cv.pts, order, t);
                for (m, got) in next.evals(t) {
                    near(c, m, &got, &want, |k| lin(sc[k] * gain), || format!("derivative of order {order} at t={t:?} of {:?} {}", cv.kind, shows(&cv.pts)));
                }
                if varied {
                    c.nontrivial(hash_f(hash_ps(cv.kind as u64 + 16 * order as u64, &cv.pts), &[t]));
                }
                if order == 1 && c.want_sample() {
                    let s = format!("{:?} {} derivative at t={:?} is {}", cv.kind, shows(&cv.pts), t, show(&next.eval(t)));
                    c.sample(s);
                }
            }
            cur = next;
        }
    });
}
