//! One query against a curve or spline as data: drawn at random, asked through the observed API, answered as numbers.
use crate::curves::{DynCurve, Kind};
use crate::gen;
use crate::rng::Rng;
use crate::splines::DynSpline;
use crate::{Co, F};
use stroke::bspline::BSplineError as E;

#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Eval(F),
    Evals(F),
    Split(F, F),
    Deriv(F),
    Axis(F, usize),
    Dd(F, usize),
    Bbox,
    Arclen(usize),
    Dist(Co),
    Linear(F),
    IsPoint(F),
    Baseline(F),
    Ends,
    Ctrl,
    Copy(F),
    Values,
    Segment(F),
}
impl Q {
    pub fn name(&self) -> &'static str {
        match self {
            Q::Eval(_) => "q:eval",
            Q::Evals(_) => "q:evals",
            Q::Split(..) => "q:split",
            Q::Deriv(_) => "q:derivative",
            Q::Axis(..) => "q:axis",
            Q::Dd(..) => "q:dd",
            Q::Bbox => "q:bbox",
            Q::Arclen(_) => "q:arclen",
            Q::Dist(_) => "q:distance",
            Q::Linear(_) => "q:is_linear",
            Q::IsPoint(_) => "q:is_a_point",
            Q::Baseline(_) => "q:baseline",
            Q::Ends => "q:ends",
            Q::Ctrl => "q:control_points",
            Q::Copy(_) => "q:copy",
            Q::Values => "q:values",
            Q::Segment(_) => "q:segment",
        }
    }
}
pub fn draw(r: &mut Rng, dim: usize, m: f64, max_steps: usize) -> Q {
    let t = gen::param(r);
    match r.below(17) {
        0 => Q::Eval(t),
        1 => Q::Evals(t),
        2 => Q::Split(t, gen::param(r)),
        3 => Q::Deriv(t),
        4 => Q::Axis(t, r.below(dim)),
        5 => Q::Dd(t, r.below(dim)),
        6 => Q::Bbox,
        7 => Q::Arclen(gen::steps(r, max_steps)),
        8 => Q::Dist((0..dim).map(|_| (r.sym() * 2.0 * m) as F).collect()),
        9 => Q::Linear((m * r.unit()) as F),
        10 => Q::IsPoint((m * r.unit()) as F),
        11 => Q::Baseline(t),
        12 => Q::Ends,
        13 => Q::Ctrl,
        14 => Q::Copy(t),
        15 => Q::Values,
        _ => Q::Segment(t),
    }
}
/// every query once
pub fn all(r: &mut Rng, dim: usize, m: f64, max_steps: usize) -> Vec<Q> {
    let t = gen::param(r);
    let s = gen::param(r);
    let mut v = vec![
        Q::Evals(t),
        Q::Split(t, s),
        Q::Deriv(s),
        Q::Bbox,
        Q::Arclen(gen::steps(r, max_steps)),
        Q::Dist((0..dim).map(|_| (r.sym() * 2.0 * m) as F).collect()),
        Q::Linear((m * r.unit()) as F),
        Q::IsPoint((m * r.unit()) as F),
        Q::Baseline(t),
        Q::Ends,
        Q::Ctrl,
        Q::Copy(s),
        Q::Values,
        Q::Segment(t),
    ];
    for k in 0..dim {
        v.push(Q::Axis(t, k));
        v.push(Q::Dd(s, k));
    }
    v
}
fn b(x: bool) -> F {
    x as u8 as F
}
/// None when the type does not offer the operation
pub fn ask(o: &dyn DynCurve, q: &Q) -> Option<Vec<F>> {
    Some(match q {
        Q::Eval(t) => o.eval(*t),
        Q::Evals(t) => o.evals(*t).into_iter().flat_map(|x| x.1).collect(),
        Q::Split(t, s) => {
            let (x, y) = o.split(*t);
            let mut v = x.eval(*s);
            v.extend(y.eval(*s));
            for p in [x, y] {
                if let Some(c) = p.ctrl() {
                    v.extend(c.into_iter().flatten());
                }
            }
            v
        }
        Q::Deriv(t) => {
            if o.kind() == Kind::Bez && o.n() < 2 {
                return None;
            }
            let d = o.derivative()?;
            let mut v = d.eval(*t);
            if let Some(e) = d.derivative() {
                v.extend(e.eval(*t));
            }
            v
        }
        Q::Axis(t, k) => vec![o.axis(*t, *k)?],
        Q::Dd(t, k) => vec![o.dd(*t, *k)?],
        Q::Bbox => o.bbox()?.into_iter().flat_map(|x| [x.0, x.1]).collect(),
        Q::Arclen(n) => vec![o.arclen(*n)?],
        Q::Dist(p) => vec![o.distance(p)?],
        Q::Linear(t) => vec![b(o.is_linear(*t)?)],
        Q::IsPoint(t) => vec![b(o.is_a_point(*t)?)],
        Q::Baseline(t) => o.baseline()?.eval(*t),
        Q::Ends => {
            let (x, y) = o.start_end()?;
            [x, y].concat()
        }
        Q::Ctrl => o.ctrl()?.concat(),
        Q::Copy(t) => {
            let c = o.copy();
            let mut v = c.eval(*t);
            if let Some(p) = c.ctrl() {
                v.extend(p.into_iter().flatten());
            }
            v
        }
        Q::Values => o.into_points()?.concat(),
        Q::Segment(t) => {
            let s = o.segment()?;
            let mut v = s.eval(*t);
            if let Some((x, y)) = s.start_end() {
                v.extend(x);
                v.extend(y);
            }
            v
        }
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum SQ {
    Eval(F),
    Domain,
    Knots,
    Ctrl,
    Arclen(usize),
    Deriv(F),
    Copy(F),
}
impl SQ {
    pub fn name(&self) -> &'static str {
        match self {
            SQ::Eval(_) => "sq:eval",
            SQ::Domain => "sq:domain",
            SQ::Knots => "sq:knots",
            SQ::Ctrl => "sq:control_points",
            SQ::Arclen(_) => "sq:arclen",
            SQ::Deriv(_) => "sq:derivative",
            SQ::Copy(_) => "sq:copy",
        }
    }
}
pub fn sdraw(r: &mut Rng, s: &gen::SplineCase, max_steps: usize) -> SQ {
    let (a, bb) = s.domain();
    let t = match r.below(6) {
        0 => *r.pick(&s.knots),
        1 => a,
        2 => bb,
        _ => (a + (bb - a) * r.unit() as F).max(a).min(bb),
    };
    match r.below(10) {
        0..=3 => SQ::Eval(t),
        4 => SQ::Domain,
        5 => SQ::Knots,
        6 => SQ::Ctrl,
        7 => SQ::Arclen(gen::steps(r, max_steps)),
        8 => SQ::Deriv(t),
        _ => SQ::Copy(t),
    }
}
pub fn err_code(e: E) -> F {
    -1000.0 - e as u8 as F
}
fn pt(r: Result<Co, E>) -> Vec<F> {
    match r {
        Ok(p) => p,
        Err(e) => vec![err_code(e)],
    }
}
pub fn sask(o: &dyn DynSpline, q: &SQ) -> Option<Vec<F>> {
    Some(match q {
        SQ::Eval(t) => pt(o.eval(*t)),
        SQ::Domain => {
            let (a, b) = o.domain();
            vec![a, b]
        }
        SQ::Knots => o.knots(),
        SQ::Ctrl => o.ctrl().concat(),
        SQ::Arclen(n) => vec![o.arclen(*n)],
        SQ::Deriv(t) => {
            let mut v = Vec::new();
            let mut d = o.derivative()?;
            loop {
                v.extend(pt(d.eval(*t)));
                v.extend(d.knots());
                d = match d.derivative() {
                    Some(x) => x,
                    None => break,
                };
            }
            v
        }
        SQ::Copy(t) => {
            let c = o.copy();
            let mut v = pt(c.eval(*t));
            v.extend(c.knots());
            v.extend(c.ctrl().concat());
            v
        }
    })
}
pub fn bits(v: &Option<Vec<F>>) -> Option<Vec<u64>> {
    v.as_ref().map(|v| v.iter().map(|x| (*x as f64).to_bits()).collect())
}
