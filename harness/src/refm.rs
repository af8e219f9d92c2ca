//! Reference models, written from the mathematical definitions in double-double arithmetic.
use crate::dd::DD;
use crate::{Co, F};

pub fn binom(n: usize, k: usize) -> f64 {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r.round()
}
pub fn dd(x: F) -> DD {
    DD::new(x as f64)
}
/// Bernstein basis of degree n at t
pub fn bernstein(n: usize, t: DD) -> Vec<DD> {
    let s = DD::ONE - t;
    let mut pt = vec![DD::ONE; n + 1];
    let mut ps = vec![DD::ONE; n + 1];
    for i in 1..=n {
        pt[i] = pt[i - 1] * t;
        ps[i] = ps[i - 1] * s;
    }
    (0..=n).map(|i| DD::new(binom(n, i)) * pt[i] * ps[n - i]).collect()
}
pub fn combine(w: &[DD], pts: &[Co]) -> Vec<f64> {
    let dim = pts[0].len();
    (0..dim).map(|k| w.iter().zip(pts).fold(DD::ZERO, |a, (w, p)| a + *w * dd(p[k])).f()).collect()
}
/// the point of the Bézier curve at t
pub fn bezier_at(pts: &[Co], t: DD) -> Vec<f64> {
    combine(&bernstein(pts.len() - 1, t), pts)
}
pub fn bezier(pts: &[Co], t: F) -> Vec<f64> {
    bezier_at(pts, dd(t))
}
/// weights of the k-th derivative: d^k/dt^k B_{i,n}
pub fn bernstein_deriv(n: usize, k: usize, t: DD) -> Vec<DD> {
    if k > n {
        return vec![DD::ZERO; n + 1];
    }
    let mut w = bernstein(n - k, t);
    for j in 0..k {
        // raise from degree m-1 to m: B'_{i,m} = m (B_{i-1,m-1} - B_{i,m-1})
        let m = n - k + 1 + j;
        let mut v = vec![DD::ZERO; m + 1];
        for i in 0..=m {
            let a = if i > 0 { w[i - 1] } else { DD::ZERO };
            let b = if i < m { w[i] } else { DD::ZERO };
            v[i] = DD::new(m as f64) * (a - b);
        }
        w = v;
    }
    w
}
pub fn bezier_deriv(pts: &[Co], k: usize, t: F) -> Vec<f64> {
    combine(&bernstein_deriv(pts.len() - 1, k, dd(t)), pts)
}
/// largest absolute value on axis k
pub fn axis_max(pts: &[Co], k: usize) -> f64 {
    pts.iter().map(|p| (p[k] as f64).abs()).fold(0.0, f64::max)
}
/// largest absolute coordinate
pub fn max_abs(pts: &[Co]) -> f64 {
    pts.iter().flat_map(|p| p.iter()).map(|x| (*x as f64).abs()).fold(0.0, f64::max)
}
/// falling factorial n(n-1)..(n-k+1) times 2^k: bound of the k-th derivative relative to the coordinates
pub fn deriv_gain(n: usize, k: usize) -> f64 {
    (0..k).map(|i| 2.0 * (n - i) as f64).product()
}
pub fn norm(v: &[f64]) -> f64 {
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    norm(&a.iter().zip(b).map(|(x, y)| x - y).collect::<Vec<_>>())
}
pub fn wide(p: &[F]) -> Vec<f64> {
    p.iter().map(|x| *x as f64).collect()
}
/// length of the control polygon
pub fn polygon(pts: &[Co]) -> f64 {
    pts.windows(2).map(|w| dist(&wide(&w[0]), &wide(&w[1]))).sum()
}
/// total length of the n chords at evenly spaced parameters
pub fn chords(pts: &[Co], n: usize) -> f64 {
    let mut prev = bezier_at(pts, DD::ZERO);
    let mut s = 0.0;
    for i in 1..=n {
        let q = bezier_at(pts, DD::new(i as f64) / DD::new(n as f64));
        s += dist(&prev, &q);
        prev = q;
    }
    s
}
/// exact extent of the quadratic or cubic curve on axis k, with the interior extrema's parameters
pub fn extent(pts: &[Co], k: usize) -> (f64, f64, Vec<f64>) {
    let n = pts.len() - 1;
    let x: Vec<DD> = pts.iter().map(|p| dd(p[k])).collect();
    let d: Vec<DD> = (0..n).map(|i| x[i + 1] - x[i]).collect();
    let mut roots = Vec::new();
    let two = DD::new(2.0);
    match n {
        1 => {}
        2 => {
            let den = d[0] - d[1];
            if !den.is_zero() {
                roots.push(d[0] / den);
            }
        }
        3 => {
            let (a, b, c) = (d[0] - two * d[1] + d[2], two * (d[1] - d[0]), d[0]);
            if a.is_zero() {
                if !b.is_zero() {
                    roots.push(-c / b);
                }
            } else {
                let disc = b * b - DD::new(4.0) * a * c;
                if disc >= DD::ZERO {
                    let sq = disc.sqrt();
                    let q = if b < DD::ZERO { -b + sq } else { -b - sq };
                    roots.push(q / (two * a));
                    if !q.is_zero() {
                        roots.push(two * c / q);
                    }
                } else {
                    // closest approach to a root, for almost-double roots
                    roots.push(-b / (two * a));
                }
            }
        }
        _ => unreachable!(),
    }
    let (p, q) = (x[0].f(), x[n].f());
    let (mut lo, mut hi) = (p.min(q), p.max(q));
    let mut inner = Vec::new();
    for t in roots {
        if t.hi.is_finite() && t > DD::ZERO && t < DD::ONE {
            let v = bernstein(n, t).iter().zip(&x).fold(DD::ZERO, |a, (w, y)| a + *w * *y).f();
            lo = lo.min(v);
            hi = hi.max(v);
            inner.push(t.f());
        }
    }
    (lo, hi, inner)
}

// ------------------------------------------------------------------ distances
/// plain f64 evaluation for dense searches
pub fn eval_f64(pts: &[Vec<f64>], t: f64, out: &mut [f64]) {
    let n = pts.len() - 1;
    let s = 1.0 - t;
    // Horner form of the Bernstein sum
    let mut tp = 1.0;
    let dim = out.len();
    for k in 0..dim {
        out[k] = pts[0][k] * s;
    }
    if n == 0 {
        out.copy_from_slice(&pts[0]);
        return;
    }
    for i in 1..n {
        tp *= t;
        let b = binom(n, i) * tp;
        for k in 0..dim {
            out[k] = (out[k] + b * pts[i][k]) * s;
        }
    }
    tp *= t;
    for k in 0..dim {
        out[k] += tp * pts[n][k];
    }
}
pub struct Search {
    p: Vec<Vec<f64>>,
    q: Vec<f64>,
    buf: Vec<f64>,
}
impl Search {
    pub fn new(pts: &[Co], q: &[F]) -> Search {
        Search { p: pts.iter().map(|x| wide(x)).collect(), q: wide(q), buf: vec![0.0; q.len()] }
    }
    pub fn d(&mut self, t: f64) -> f64 {
        eval_f64(&self.p, t, &mut self.buf);
        let mut s = 0.0;
        for (a, b) in self.buf.iter().zip(&self.q) {
            s += (a - b) * (a - b);
        }
        s.sqrt()
    }
    fn golden(&mut self, mut a: f64, mut b: f64) -> f64 {
        const G: f64 = 0.618_033_988_749_894_8;
        let (mut x1, mut x2) = (b - G * (b - a), a + G * (b - a));
        let (mut f1, mut f2) = (self.d(x1), self.d(x2));
        let mut best = f1.min(f2);
        for _ in 0..60 {
            if f1 < f2 {
                b = x2;
                x2 = x1;
                f2 = f1;
                x1 = b - G * (b - a);
                f1 = self.d(x1);
                best = best.min(f1);
            } else {
                a = x1;
                x1 = x2;
                f1 = f2;
                x2 = a + G * (b - a);
                f2 = self.d(x2);
                best = best.min(f2);
            }
        }
        best
    }
    /// smallest distance over [a,b]: grid plus refinement around every local minimum of the grid
    pub fn min_over(&mut self, a: f64, b: f64, grid: usize) -> f64 {
        let v: Vec<f64> = (0..=grid).map(|i| self.d(a + (b - a) * i as f64 / grid as f64)).collect();
        let h = (b - a) / grid as f64;
        let mut best = v.iter().cloned().fold(f64::INFINITY, f64::min);
        for i in 0..=grid {
            let l = if i > 0 { v[i - 1] } else { f64::INFINITY };
            let r = if i < grid { v[i + 1] } else { f64::INFINITY };
            if v[i] < l && v[i] <= r {
                let lo = (a + h * (i as f64 - 1.0)).max(a);
                let hi = (a + h * (i as f64 + 1.0)).min(b);
                best = best.min(self.golden(lo, hi));
            }
        }
        best
    }
    /// largest speed over [0,1] (sampled)
    pub fn max_speed(&self) -> f64 {
        self.speed_on(256)
    }
    pub fn speed_on(&self, grid: usize) -> f64 {
        let n = self.p.len() - 1;
        if n == 0 {
            return 0.0;
        }
        let h: Vec<Vec<f64>> = (0..n).map(|i| self.p[i].iter().zip(&self.p[i + 1]).map(|(a, b)| (b - a) * n as f64).collect()).collect();
        let mut buf = vec![0.0; self.q.len()];
        (0..=grid)
            .map(|i| {
                eval_f64(&h, i as f64 / grid as f64, &mut buf);
                norm(&buf)
            })
            .fold(0.0, f64::max)
    }
}
/// Euclidean distance of q to the segment ab; also the unclamped foot parameter
pub fn segment_distance(a: &[F], b: &[F], q: &[F]) -> (f64, f64) {
    let dim = a.len();
    let (mut l2, mut dot) = (DD::ZERO, DD::ZERO);
    for k in 0..dim {
        let u = dd(b[k]) - dd(a[k]);
        let v = dd(q[k]) - dd(a[k]);
        l2 = l2 + u * u;
        dot = dot + u * v;
    }
    let foot = if l2.is_zero() { DD::ZERO } else { dot / l2 };
    let t = foot.max(DD::ZERO).min(DD::ONE);
    let mut s = Vec::with_capacity(dim);
    for k in 0..dim {
        let p = dd(a[k]) + (dd(b[k]) - dd(a[k])) * t;
        s.push((dd(q[k]) - p).f());
    }
    (norm(&s), foot.f())
}

// ------------------------------------------------------------------ B-splines
/// index of the span whose half-open interval contains t; at the domain end the last non-empty span
pub fn span(k: &[F], d: usize, c: usize, t: F) -> Option<usize> {
    if !(t >= k[d] && t <= k[c]) {
        return None;
    }
    for i in (d..c).rev() {
        if k[i] < k[i + 1] && k[i] <= t && (t < k[i + 1] || t == k[c]) {
            return Some(i);
        }
    }
    None
}
fn ratio(a: DD, b: DD) -> DD {
    if b.is_zero() {
        DD::ZERO
    } else {
        a / b
    }
}
/// basis functions of degree p over all knots, by the Cox-de Boor recursion, with the span that contains t given
pub fn basis(k: &[F], p: usize, span: usize, t: F) -> Vec<DD> {
    let n = k.len() - 1;
    let t = dd(t);
    let mut b: Vec<DD> = (0..n).map(|i| if i == span { DD::ONE } else { DD::ZERO }).collect();
    for q in 1..=p {
        for i in 0..n - q {
            let l = ratio(t - dd(k[i]), dd(k[i + q]) - dd(k[i])) * b[i];
            let r = ratio(dd(k[i + q + 1]) - t, dd(k[i + q + 1]) - dd(k[i + 1])) * b[i + 1];
            b[i] = l + r;
        }
    }
    b.truncate(n - p);
    b
}
/// j-th derivative of the degree-p basis functions
pub fn basis_deriv(k: &[F], p: usize, j: usize, span: usize, t: F) -> Vec<DD> {
    if j == 0 {
        return basis(k, p, span, t);
    }
    let l = basis_deriv(k, p - 1, j - 1, span, t);
    (0..l.len() - 1)
        .map(|i| DD::new(p as f64) * (ratio(l[i], dd(k[i + p]) - dd(k[i])) - ratio(l[i + 1], dd(k[i + p + 1]) - dd(k[i + 1]))))
        .collect()
}
/// the point of the spline
pub fn spline_at(k: &[F], pts: &[Co], d: usize, t: F) -> Option<Vec<f64>> {
    let s = span(k, d, pts.len(), t)?;
    Some(combine(&basis(k, d, s, t), pts))
}
/// largest |coordinate| on each axis over the d+1 points active in span s
pub fn active_max(pts: &[Co], d: usize, s: usize, k: usize) -> f64 {
    pts[s - d..=s].iter().map(|p| (p[k] as f64).abs()).fold(0.0, f64::max)
}
/// Bounds of the control values of the j-th derivative on axis k, for the points active in span s: the size that
/// rounding of a j-fold differenced curve is relative to.
pub fn deriv_bound(kn: &[F], pts: &[Co], d: usize, j: usize, s: usize, k: usize) -> f64 {
    deriv_bounds(kn, pts, d, j, k)[s - d..=s - j].iter().cloned().fold(0.0, f64::max)
}
/// the largest bound of any control point of the j-th derivative, active somewhere or not
pub fn deriv_bound_any(kn: &[F], pts: &[Co], d: usize, j: usize) -> f64 {
    (0..pts[0].len()).flat_map(|k| deriv_bounds(kn, pts, d, j, k)).fold(0.0, f64::max)
}
fn deriv_bounds(kn: &[F], pts: &[Co], d: usize, j: usize, k: usize) -> Vec<f64> {
    let mut a: Vec<f64> = pts.iter().map(|p| (p[k] as f64).abs()).collect();
    for q in 1..=j {
        let m = a.len() - 1;
        a = (0..m)
            .map(|i| {
                let w = kn[i + d + 1] as f64 - kn[i + q] as f64;
                if w > 0.0 {
                    (d - q + 1) as f64 * (a[i + 1] + a[i]) / w
                } else {
                    0.0
                }
            })
            .collect();
    }
    a
}
/// the same over the whole domain and all axes
pub fn deriv_bound_all(kn: &[F], pts: &[Co], d: usize, j: usize) -> f64 {
    let dim = pts[0].len();
    let mut m = 0.0f64;
    for s in d..pts.len() {
        if kn[s] < kn[s + 1] {
            for k in 0..dim {
                m = m.max(deriv_bound(kn, pts, d, j, s, k));
            }
        }
    }
    m
}
