//! Workload generators. Every generator records which class it drew so that coverage can be demanded.
use crate::curves::{kinds_for, Kind};
use crate::mon::Case;
use crate::rng::Rng;
use crate::{Co, F, IS32};

pub fn f(x: f64) -> F {
    x as F
}
pub fn next_up(x: F) -> F {
    x.next_up()
}
pub fn next_down(x: F) -> F {
    x.next_down()
}

/// a power-of-ten magnitude: mostly 1, sometimes up to 10^±maxexp
pub fn magnitude(r: &mut Rng, maxexp: i64) -> f64 {
    let u = r.unit();
    let e = if u < 0.6 {
        0
    } else if u < 0.85 {
        r.range(-3.min(maxexp), 3.min(maxexp))
    } else {
        r.range(-maxexp, maxexp)
    };
    10f64.powi(e as i32)
}

pub const POINT_CLASSES: [&str; 17] = [
    "pts:uniform", "pts:lattice", "pts:dyadic", "pts:duplicates", "pts:collinear", "pts:monotone", "pts:elevated", "pts:palindrome",
    "pts:closed", "pts:all-equal", "pts:flat-axis", "pts:mixed-scales", "pts:offset", "pts:zigzag", "pts:unit", "pts:inner-far",
    "pts:far-offset",
];

/// `n` points in `dim` dimensions; the class tells what kind of configuration was drawn
pub fn points(r: &mut Rng, dim: usize, n: usize, maxexp: i64) -> (Vec<Co>, &'static str) {
    let cls = r.below(POINT_CLASSES.len() + 4);
    let cls = if cls >= POINT_CLASSES.len() { 0 } else { cls };
    let s = magnitude(r, maxexp);
    let uni = |r: &mut Rng, s: f64| -> Vec<Vec<f64>> { (0..n).map(|_| (0..dim).map(|_| r.sym() * s).collect()).collect() };
    let mut p: Vec<Vec<f64>> = match cls {
        1 => (0..n).map(|_| (0..dim).map(|_| r.range(-9, 9) as f64).collect()).collect(),
        2 => (0..n).map(|_| (0..dim).map(|_| r.range(-64, 64) as f64 / 16.0).collect()).collect(),
        3 => {
            let mut p = uni(r, s);
            for _ in 0..1 + r.below(n) {
                let (i, j) = (r.below(n), r.below(n));
                // prefer neighbours
                let j = if r.chance(0.5) && i + 1 < n { i + 1 } else { j };
                p[j] = p[i].clone();
            }
            p
        }
        4 => {
            let a: Vec<f64> = (0..dim).map(|_| r.range(-8, 8) as f64 * s).collect();
            let mut b: Vec<f64> = (0..dim).map(|_| r.range(-8, 8) as f64 * s).collect();
            if r.chance(0.3) {
                // axis aligned
                let k = r.below(dim);
                for (i, x) in b.iter_mut().enumerate() {
                    if i != k {
                        *x = 0.0
                    }
                }
            }
            let even = r.chance(0.4);
            (0..n)
                .map(|i| {
                    let u = if even { i as f64 / n.max(2) as f64 } else { r.range(-8, 16) as f64 / 8.0 };
                    a.iter().zip(&b).map(|(x, y)| x + u * y).collect()
                })
                .collect()
        }
        5 => {
            let mut p = uni(r, s);
            for k in 0..dim {
                let mut v: Vec<f64> = p.iter().map(|q| q[k]).collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if r.chance(0.5) {
                    v.reverse();
                }
                for (q, x) in p.iter_mut().zip(v) {
                    q[k] = x;
                }
            }
            p
        }
        6 if n >= 3 => {
            // a curve of lower degree with its degree raised: the leading coefficient is (nearly) zero
            let m = 2 + r.below(n - 2);
            let mut p: Vec<Vec<f64>> = (0..m).map(|_| (0..dim).map(|_| r.sym() * s).collect()).collect();
            while p.len() < n {
                let k = p.len();
                let mut q = vec![p[0].clone()];
                for i in 1..k {
                    let a = i as f64 / k as f64;
                    q.push((0..dim).map(|d| a * p[i - 1][d] + (1.0 - a) * p[i][d]).collect());
                }
                q.push(p[k - 1].clone());
                p = q;
            }
            p
        }
        7 => {
            let mut p = uni(r, s);
            for i in 0..n / 2 {
                p[n - 1 - i] = p[i].clone();
            }
            p
        }
        8 => {
            let mut p = uni(r, s);
            p[n - 1] = p[0].clone();
            p
        }
        9 => {
            let q: Vec<f64> = (0..dim).map(|_| r.sym() * s).collect();
            vec![q; n]
        }
        10 => {
            let mut p = uni(r, s);
            let k = r.below(dim);
            let v = if r.chance(0.5) { 0.0 } else { r.sym() * s };
            for q in p.iter_mut() {
                q[k] = v;
            }
            p
        }
        11 => {
            let mut p = uni(r, 1.0);
            for k in 0..dim {
                let m = magnitude(r, maxexp.min(6)) * 10f64.powi(r.range(-2, 2) as i32);
                for q in p.iter_mut() {
                    q[k] *= m;
                }
            }
            p
        }
        12 => {
            let mut p = uni(r, s);
            let o: Vec<f64> = (0..dim).map(|_| r.sym() * s * 1000.0).collect();
            for q in p.iter_mut() {
                for k in 0..dim {
                    q[k] += o[k];
                }
            }
            p
        }
        13 => (0..n)
            .map(|i| (0..dim).map(|k| if (i + k) % 2 == 0 { s } else { -s } * (1.0 + 0.1 * r.unit())).collect())
            .collect(),
        14 => {
            let mut p = vec![vec![0.0; dim]; n];
            let i = r.below(n);
            for x in p[i].iter_mut() {
                *x = if r.chance(0.7) { s } else { -s };
            }
            p
        }
        15 => {
            let mut p = uni(r, s);
            for q in p.iter_mut().take(n.saturating_sub(1)).skip(1) {
                for x in q.iter_mut() {
                    *x *= 20.0;
                }
            }
            p
        }
        16 => {
            // small against its distance from the origin
            let mut p = uni(r, s);
            let far = s * 10f64.powf(if IS32 { 1.0 + 4.0 * r.unit() } else { 2.0 + 9.0 * r.unit() });
            let o: Vec<f64> = (0..dim).map(|_| if r.chance(0.2) { 0.0 } else { (0.5 + 0.5 * r.unit()) * far * if r.chance(0.5) { -1.0 } else { 1.0 } }).collect();
            for q in p.iter_mut() {
                for k in 0..dim {
                    q[k] += o[k];
                }
            }
            p
        }
        _ => uni(r, s),
    };
    if r.chance(0.04) {
        // signed zeros
        for q in p.iter_mut() {
            for x in q.iter_mut() {
                if r.chance(0.4) {
                    *x = if r.chance(0.5) { -0.0 } else { 0.0 };
                }
            }
        }
    }
    let cls = if cls == 6 && n < 3 { 0 } else { cls };
    (p.iter().map(|q| q.iter().map(|x| f(*x)).collect()).collect(), POINT_CLASSES[cls])
}

/// a parameter in [0,1]
pub fn param(r: &mut Rng) -> F {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => f(r.range(0, 64) as f64 / 64.0),
        4 => f(r.range(0, 4096) as f64 / 4096.0),
        5 => f(10f64.powf(-17.0 * r.unit())),
        6 => f(1.0 - 10f64.powf(-(if crate::IS32 { 7.0 } else { 15.5 }) * r.unit())),
        7 => *r.pick(&[next_down(1.0), next_up(0.5), next_down(0.5), F::EPSILON, F::MIN_POSITIVE]),
        8 => f(r.range(0, 10) as f64 / 10.0),
        9 => f(1.0 / 3.0 * r.range(0, 3) as f64).min(1.0),
        _ => f(r.unit()),
    }
}
pub fn param_class(t: F) -> &'static str {
    if t == 0.0 {
        "t:0"
    } else if t == 1.0 {
        "t:1"
    } else if t < 0.01 {
        "t:near-0"
    } else if t > 0.99 {
        "t:near-1"
    } else {
        "t:inside"
    }
}
/// a step count: small ones often
pub fn steps(r: &mut Rng, max: usize) -> usize {
    if max >= 100 && r.chance(0.004) {
        // far beyond what anybody would tabulate, cap or store in a byte (or two)
        if max >= 150 && r.chance(0.01) {
            return *r.pick(&[65535, 65536, 65537, 100_000]);
        }
        return *r.pick(&[255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 8200, 10_001, 16_385, 32_769]);
    }
    match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 1 + r.below(10.min(max)),
        4 => *r.pick(&[4usize, 8, 16, 32, 64]),
        5 => 1 + r.below(max),
        6 => 1 + r.below(64),
        _ => 1 + r.below(20),
    }
    .min(max)
}

pub struct Curve {
    pub kind: Kind,
    pub dim: usize,
    pub n: usize,
    pub pts: Vec<Co>,
    pub class: &'static str,
}
pub fn dimension(r: &mut Rng) -> usize {
    if r.chance(0.03) {
        return *r.pick(&[9, 12, 16, 33]);
    }
    *r.pick(&[1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8])
}
/// a random curve of one of `kinds` (all when empty)
pub fn curve(c: &mut Case, kinds: &[Kind], maxexp: i64) -> Curve {
    let r = &mut c.rng;
    let dim = dimension(r);
    loop {
        let n = match r.below(10) {
            0 => 1,
            1 => 2,
            2 | 3 => 3,
            4 | 5 | 6 => 4,
            _ => bez_size(r, dim),
        };
        let ks: Vec<Kind> = kinds_for(dim, n).into_iter().filter(|k| kinds.is_empty() || kinds.contains(k)).collect();
        if ks.is_empty() {
            continue;
        }
        let kind = *r.pick(&ks);
        let (pts, class) = points(r, dim, n, maxexp);
        c.cover(class);
        c.cover(kind_name(kind));
        return Curve { kind, dim, n, pts, class };
    }
}
/// a number of control points instantiated in `dim` dimensions; the large ones rarely
pub fn bez_size(r: &mut Rng, dim: usize) -> usize {
    let s = crate::curves::sizes(dim);
    loop {
        let n = *r.pick(s);
        if n <= 10 || r.chance(if n > 100 { 0.05 } else { 0.4 }) {
            return n;
        }
    }
}
pub fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Line => "kind:line",
        Kind::Quad => "kind:quadratic",
        Kind::Cubic => "kind:cubic",
        Kind::Bez => "kind:bezier",
        Kind::SegLine => "kind:segment-line",
        Kind::SegQuad => "kind:segment-quadratic",
        Kind::SegCubic => "kind:segment-cubic",
    }
}

// ------------------------------------------------------------------ knots
pub const KNOT_CLASSES: [&str; 9] = [
    "knots:clamped", "knots:unclamped-uniform", "knots:unclamped-random", "knots:clamped-start", "knots:clamped-end",
    "knots:partly-clamped", "knots:repeated-interior", "knots:break", "knots:wild",
];
/// A knot vector for degree `d` and `m` spans between knots[d] and knots[d+m] (some of them empty when knots repeat).
/// `mode` 0: interior knots at most d-fold; 1: also interior breaks (d+1-fold); 2: anything non-decreasing.
pub fn knots(r: &mut Rng, d: usize, m: usize, mode: u8) -> (Vec<F>, &'static str) {
    let k = m + 2 * d + 1;
    let c = m + d;
    let cls = r.below(7 + mode as usize);
    let scale = if r.chance(0.6) { 1.0 } else { 10f64.powi(r.range(-4, 4) as i32) };
    let offset = match r.below(6) {
        0 => r.range(-50, 50) as f64 * scale,
        1 => -(m as f64) * scale,
        2 => r.sym() * 10.0 * scale,
        _ => 0.0,
    };
    let spacing = r.below(5);
    let step = |r: &mut Rng| -> f64 {
        match spacing {
            0 | 1 => 1.0,
            2 => 0.05 + r.unit(),
            3 => *r.pick(&[0.25, 0.5, 1.0, 2.0, 8.0]),
            _ => 10f64.powf(r.sym() * 2.0),
        }
    };
    // unclamped skeleton: strictly increasing
    let mut v = vec![0.0; k];
    for i in 1..k {
        v[i] = v[i - 1] + step(r);
    }
    if cls == 1 {
        for (i, x) in v.iter_mut().enumerate() {
            *x = i as f64;
        }
    }
    let clamp_start = |v: &mut Vec<f64>| {
        let x = v[d];
        for y in v.iter_mut().take(d) {
            *y = x;
        }
    };
    let clamp_end = |v: &mut Vec<f64>| {
        let x = v[c];
        for y in v.iter_mut().skip(c + 1) {
            *y = x;
        }
    };
    match cls {
        0 => {
            clamp_start(&mut v);
            clamp_end(&mut v);
        }
        3 => clamp_start(&mut v),
        4 => clamp_end(&mut v),
        5 => {
            // end multiplicities anywhere from 1 to d+1
            let a = r.below(d + 1);
            let b = r.below(d + 1);
            let (x, y) = (v[d], v[c]);
            for i in d - a..d {
                v[i] = x;
            }
            for i in c + 1..=c + b {
                v[i] = y;
            }
        }
        6 | 7 => {
            match r.below(4) {
                0 => {}
                1 => clamp_start(&mut v),
                2 => clamp_end(&mut v),
                _ => {
                    clamp_start(&mut v);
                    clamp_end(&mut v);
                }
            }
            // collapse runs of interior knots d+1..c-1
            if c > d + 1 && d >= 1 {
                let lim = if cls == 7 { d + 1 } else { d };
                for _ in 0..1 + r.below(2) {
                    let i = d + 1 + r.below(c - d - 1);
                    let len = 2.min(lim) + r.below(lim.saturating_sub(1).max(1));
                    let len = len.min(lim).min(c - i);
                    // keep multiplicity within the limit: only collapse a run of so far distinct knots
                    let x = v[i];
                    let already = v.iter().filter(|y| **y == x).count();
                    if already == 1 && (i..i + len).all(|j| v.iter().filter(|y| **y == v[j]).count() == 1) {
                        for j in i..i + len {
                            v[j] = x;
                        }
                    }
                }
            }
        }
        8 => {
            // anything non-decreasing
            for i in 1..k {
                if r.chance(0.5) {
                    let prev = v[i - 1];
                    v[i] = prev;
                } else {
                    v[i] = v[i].max(v[i - 1]);
                }
            }
            if r.chance(0.2) {
                let x = v[0];
                v.iter_mut().for_each(|y| *y = x);
            }
        }
        _ => {}
    }
    let out: Vec<F> = v.iter().map(|x| f(x * scale + offset)).collect();
    (out, KNOT_CLASSES[cls])
}
/// multiplicity of the most repeated knot
pub fn max_mult(k: &[F]) -> usize {
    k.iter().map(|x| k.iter().filter(|y| *y == x).count()).max().unwrap_or(0)
}
/// largest multiplicity of a knot strictly inside the domain
pub fn interior_mult(k: &[F], d: usize, c: usize) -> usize {
    k.iter().filter(|x| **x > k[d] && **x < k[c]).map(|x| k.iter().filter(|y| *y == x).count()).max().unwrap_or(0)
}
/// Unusual spacing: very short spans, ends that are almost clamped, a vector at the far ends of the scale.
/// The knots stay non-decreasing and finite; multiplicities may grow.
fn distort(r: &mut Rng, d: usize, c: usize, k: &mut [F]) -> &'static str {
    let tiny = f(10f64.powi(-(r.range(5, if crate::IS32 { 7 } else { 16 }) as i32)));
    match r.below(6) {
        5 if c > d + 1 => {
            // more equal knots at an end than the degree asks for
            let n = r.range(1, (c - d - 1).min(3) as i64) as usize;
            if r.chance(0.5) {
                let x = k[d + n];
                k[..d + n].iter_mut().for_each(|y| *y = x);
            } else {
                let x = k[c - n];
                k[c - n..].iter_mut().for_each(|y| *y = x);
            }
            "knots:end-surplus"
        }
        0 => {
            let s = f(*r.pick(if crate::IS32 { &[1e-10, 1e-4, 1e4, 1e10] } else { &[1e-40, 1e-20, 1e-9, 1e9, 1e20, 1e40] }));
            k.iter_mut().for_each(|x| *x *= s);
            if s < 1.0 { "knots:tiny" } else { "knots:huge" }
        }
        1 => {
            // a short span inside (or at an end of) the domain: the knots before it move towards their left
            let i = d + r.below(c - d);
            let (a, b) = (k[i], k[i + 1]);
            for x in k[..=i].iter_mut() {
                *x += (b - a) * (1.0 - tiny);
            }
            "knots:short-span"
        }
        2 if k.len() > 2 => {
            // a knot moved right up to its neighbour
            let i = 1 + r.below(k.len() - 2);
            k[i] = if r.chance(0.5) { k[i - 1] + (k[i] - k[i - 1]) * tiny } else { k[i + 1] - (k[i + 1] - k[i]) * tiny };
            "knots:short-span"
        }
        3 => {
            // equal knots pulled apart by next to nothing
            for i in 1..k.len() {
                if k[i] <= k[i - 1] {
                    // (spans whose reciprocal overflows are beyond the reference)
                    k[i] = next_up(k[i - 1]).max(k[i - 1] + if crate::IS32 { 1e-30 } else { 1e-200 });
                }
            }
            "knots:ulps-apart"
        }
        _ => {
            // ends clamped but for a tiny distance
            let (x, y) = (k[d], k[c]);
            let w = y - x;
            for i in 0..d {
                k[i] = x - tiny * w * (d - i) as F;
            }
            for i in c + 1..k.len() {
                k[i] = y + tiny * w * (i - c) as F;
            }
            "knots:almost-clamped"
        }
    }
}
pub struct SplineCase {
    pub d: usize,
    pub m: usize,
    pub dim: usize,
    pub knots: Vec<F>,
    pub pts: Vec<Co>,
    pub class: &'static str,
    pub pclass: &'static str,
}
impl SplineCase {
    pub fn c(&self) -> usize {
        self.m + self.d
    }
    pub fn domain(&self) -> (F, F) {
        (self.knots[self.d], self.knots[self.c()])
    }
    pub fn clamped_start(&self) -> bool {
        self.knots[0] == self.knots[self.d]
    }
    pub fn clamped_end(&self) -> bool {
        self.knots[self.c()] == self.knots[self.knots.len() - 1]
    }
    pub fn show(&self) -> String {
        format!("degree {} knots {} points {} [{} {}]", self.d, crate::show(&self.knots), crate::shows(&self.pts), self.class, self.pclass)
    }
}
pub fn spline_case(c: &mut Case, mind: usize, mode: u8, maxexp: i64, list: &[(usize, usize, &[usize])]) -> SplineCase {
    let r = &mut c.rng;
    loop {
        let (dim, dmax, ms) = *r.pick(list);
        if r.chance(if ms[0] > 100 { 0.985 } else if ms[0] > 9 { 0.75 } else { 0.0 }) {
            continue;
        }
        let d = if r.chance(0.5) { r.below(dmax + 1) } else { r.below(dmax.min(3) + 1) };
        if d < mind {
            continue;
        }
        let m = *r.pick(ms);
        let (mut k, class) = knots(r, d, m, mode);
        if r.chance(0.2) {
            // the same knots mirrored about the origin
            k.reverse();
            k.iter_mut().for_each(|x| *x = 0.0 - *x);
        }
        let odd = if r.chance(0.1) { distort(r, d, m + d, &mut k) } else { "" };
        // (a surplus at the ends does not matter to the derivative, whose promise is about interior knots)
        if mode < 2 && (mode == 1 && max_mult(&k) > d + 1 || !(k[d] < k[m + d])) {
            continue;
        }
        if mode == 0 && interior_mult(&k, d, m + d) > d.max(1) {
            continue;
        }
        let (pts, pclass) = points(r, dim, m + d, maxexp);
        c.cover(class);
        c.cover(pclass);
        if !odd.is_empty() {
            c.cover(odd);
        }
        let s = SplineCase { d, m, dim, knots: k, pts, class, pclass };
        c.cover(match (s.clamped_start(), s.clamped_end()) {
            (true, true) => "ends:clamped",
            (true, false) => "ends:clamped-start",
            (false, true) => "ends:clamped-end",
            (false, false) => "ends:unclamped",
        });
        return s;
    }
}
/// parameters of the domain: knots, their neighbours, ends, evenly spaced and random ones
pub fn spline_params(r: &mut Rng, s: &SplineCase, extra: usize) -> Vec<F> {
    let (a, b) = s.domain();
    let mut v = vec![a, b];
    for x in &s.knots {
        for y in [*x, next_up(*x), next_down(*x)] {
            if y >= a && y <= b {
                v.push(y);
            }
        }
    }
    let inside = |x: f64| -> F { f(x).max(a).min(b) };
    let (af, bf) = (a as f64, b as f64);
    for i in s.d..s.c() {
        let (x, y) = (s.knots[i] as f64, s.knots[i + 1] as f64);
        v.push(inside(x + (y - x) * 0.5));
        v.push(inside(x + (y - x) * r.unit()));
    }
    for _ in 0..extra {
        v.push(inside(af + (bf - af) * r.unit()));
    }
    v
}
