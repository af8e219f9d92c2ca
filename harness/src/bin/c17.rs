//! C17: derivative of B-splines.
use harness::{chk::*, gen, hash_f, hash_ps, mon::*, refm, splines, F, IS32, RT, TINY};

fn main() {
    let spec = Spec {
        prop: "C17",
        quick: 100_000,
        mult: 40,
        rule: "random accepted splines of degree 1..7 with interior multiplicity at most D (any clamping, knot class, dimension), derived repeatedly down to degree 0; shape, domain, and values at every knot, neighbours, inside every span, against the derivative of the Cox-de Boor basis in double-double arithmetic; distinct by knots and points, non-trivial when not all control points are equal",
        need: &[("ends:clamped", 1000), ("ends:clamped-start", 500), ("ends:clamped-end", 500), ("ends:unclamped", 1000), ("order:1", 5000), ("order:2", 1000), ("order:3", 500), ("order:4+", 500), ("knots:repeated-interior", 500), ("mult:D", 200)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let s = gen::spline_case(c, 1, 0, if IS32 { 6 } else { 40 }, &splines::SPLINES);
        let (d, cc) = (s.d, s.c());
        let sp = match splines::spline(d, &s.knots, &s.pts).expect("instantiated") {
            Ok(x) => x,
            Err(e) => {
                c.fail("construct", format!("{e:?}: {}", s.show()));
                return;
            }
        };
        if d > 1 && gen::interior_mult(&s.knots, d, cc) == d {
            c.cover("mult:D");
        }
        let dom = s.domain();
        let ts = gen::spline_params(&mut c.rng, &s, 3);
        let mut der = sp.derivative();
        let mut j = 0;
        while let Some(x) = der {
            j += 1;
            if !(refm::deriv_bound_any(&s.knots, &s.pts, d, j) < F::MAX as f64 * 1e-3) {
                c.cover("beyond-range");
                return; // a derivative the scalar cannot represent
            }
            c.cover(match j {
                1 => "order:1",
                2 => "order:2",
                3 => "order:3",
                _ => "order:4+",
            });
            c.check(x.degree() == d - j && x.ctrl().len() == cc - j && x.knots().len() == cc - j + d - j + 1, "shape", || {
                format!("derivative {j}: degree {}, {} control points, {} knots: {}", x.degree(), x.ctrl().len(), x.knots().len(), s.show())
            });
            c.check(x.domain() == dom, "domain", || format!("derivative {j} is defined over {:?} instead of {dom:?}: {}", x.domain(), s.show()));
            for t in &ts {
                let span = refm::span(&s.knots, d, cc, *t).unwrap();
                let want = refm::combine(&refm::basis_deriv(&s.knots, d, j, span, *t), &s.pts);
                if !want.iter().all(|v| v.is_finite()) {
                    // (the basis of the reference leaves double range before the points scale it back)
                    c.cover("reference-beyond-range");
                    continue;
                }
                match x.eval(*t) {
                    Ok(p) => {
                        near(c, "value", &p, &want, |k| RT * refm::deriv_bound(&s.knots, &s.pts, d, j, span, k) + TINY, || format!("derivative {j} at t={t:?}: {}", s.show()));
                    }
                    Err(e) => c.fail("value", format!("derivative {j} at t={t:?} = {e:?}: {}", s.show())),
                }
            }
            der = x.derivative();
        }
        c.check(j == d, "orders", || format!("{j} derivations reach degree 0: {}", s.show()));
        if s.pts.iter().any(|p| p != &s.pts[0]) {
            c.nontrivial(hash_f(hash_ps(d as u64, &s.pts), &s.knots));
        }
        if c.want_sample() {
            c.sample(format!("{j} derivatives of {}", s.show()));
        }
    });
}
