//! C15: B-spline values.
use harness::{chk::*, gen, hash_f, hash_ps, mon::*, refm, splines, IS32};

fn main() {
    let spec = Spec {
        prop: "C15",
        quick: 480_000,
        mult: 40,
        rule: "random accepted splines with knot multiplicity at most D+1 (degree 0..7 x 1..9 spans x 8 knot classes x clamping x dimension) at every knot, its neighbours, inside every span and random parameters; against the Cox-de Boor recursion in double-double arithmetic; distinct by knots and points, non-trivial when several spans are non-empty",
        need: &[("ends:clamped", 1000), ("ends:clamped-start", 1000), ("ends:clamped-end", 1000), ("ends:unclamped", 1000), ("degree:0", 500), ("degree:1", 500), ("degree:2", 500), ("degree:3", 500), ("degree:4+", 500), ("at-knot", 10000), ("at-end", 10000), ("at-break", 200), ("short-span", 300), ("knots:repeated-interior", 500)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let mut s = gen::spline_case(c, 0, 1, if IS32 { 8 } else { 60 }, &splines::SPLINES);
        if c.rng.chance(0.05) && s.d + 1 < s.c() {
            // one interior span much shorter than machine epsilon
            let i = s.d + 1 + c.rng.below(s.c() - s.d - 1);
            let x = s.knots[i];
            if s.knots.iter().filter(|y| **y == x).count() == 1 && i > s.d + 1 {
                let prev = s.knots[i - 1];
                let lead = prev.abs().max(1e-30);
                let y = gen::next_up((prev as f64 + lead as f64 * 1e-18) as harness::F);
                if y > prev && y <= s.knots[i + 1] {
                    s.knots[i] = y;
                    c.cover("short-span");
                }
            }
        }
        if c.rng.chance(0.04) {
            // the whole knot vector far below machine epsilon
            for x in s.knots.iter_mut() {
                *x *= if IS32 { 1e-20 } else { 1e-40 };
            }
            c.cover("short-span");
        }
        if gen::max_mult(&s.knots) > s.d + 1 || !(s.knots[s.d] < s.knots[s.c()]) {
            return;
        }
        c.cover(match s.d {
            0 => "degree:0",
            1 => "degree:1",
            2 => "degree:2",
            3 => "degree:3",
            _ => "degree:4+",
        });
        let sp = match splines::spline(s.d, &s.knots, &s.pts).expect("instantiated") {
            Ok(x) => x,
            Err(e) => {
                c.fail("construct", format!("{e:?}: {}", s.show()));
                return;
            }
        };
        for t in gen::spline_params(&mut c.rng, &s, 4) {
            let span = refm::span(&s.knots, s.d, s.c(), t).expect("inside");
            let want = refm::spline_at(&s.knots, &s.pts, s.d, t).unwrap();
            if t == s.domain().1 {
                c.cover("at-end");
            }
            let mult = s.knots.iter().filter(|x| **x == t).count();
            if mult > 0 {
                c.cover("at-knot");
                if mult == s.d + 1 && t > s.domain().0 && t < s.domain().1 && s.d > 0 {
                    c.cover("at-break");
                }
            }
            match sp.eval(t) {
                Ok(p) => {
                    near(c, "value", &p, &want, |k| lin(refm::active_max(&s.pts, s.d, span, k)), || format!("t={t:?} {}", s.show()));
                }
                Err(e) => c.fail("value", format!("eval({t:?}) = {e:?}: {}", s.show())),
            }
        }
        if (s.d..s.c()).filter(|i| s.knots[*i] < s.knots[*i + 1]).count() > 1 {
            c.nontrivial(hash_f(hash_ps(s.d as u64, &s.pts), &s.knots));
        }
        if c.want_sample() {
            let t = s.knots[s.d] + (s.knots[s.c()] - s.knots[s.d]) * 0.3;
            c.sample(format!("eval({t:?}) = {:?} of {}", sp.eval(t), s.show()));
        }
    });
}
