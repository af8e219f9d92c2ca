SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

seed("c01-levels-capped", "C01",
 [("bezier.rs", "        for i in 1..=p.len() {\n            for j in 0..p.len() - i {\n                p[j] = p[j] * (-t + 1.0)",
   "        for i in 1..=p.len().min(8) {\n            for j in 0..p.len() - i {\n                p[j] = p[j] * (-t + 1.0)")],
 """fn main() {
    let mut a = [p([0.0, 0.0]); 10];
    for (i, q) in a.iter_mut().enumerate() { *q = p([i as f64, (i * i) as f64]); }
    // straight in x: x(t) = 9 t
    for t in [0.0, 0.25, 0.7, 1.0] { assert!(close(Bezier::new(a).eval(t).axis(0), 9.0 * t), "t={t}"); }
}
""", "a general curve with ten or more control points", "De Casteljau stops after eight levels, so evaluation of high-degree curves is not the Bernstein sum")

seed("c02-coincident-inner", "C02",
 [("cubic_bezier.rs", "        self.start * ((-t + 1.0) * (-t + 1.0) * (-t + 1.0))\n            + self.ctrl1 * (t * (-t + 1.0) * (-t + 1.0) * 3.0)",
   "        // both inner points at the same place share one weight\n        if self.ctrl1 == self.ctrl2 {\n            let s = -t + 1.0;\n            return self.start * (s * s * s) + self.ctrl1 * (s * t * 4.0) + self.end * (t * t * t);\n        }\n        self.start * ((-t + 1.0) * (-t + 1.0) * (-t + 1.0))\n            + self.ctrl1 * (t * (-t + 1.0) * (-t + 1.0) * 3.0)")],
 """fn main() {
    let q = p([5.0, 5.0]);
    let c = CubicBezier::new(p([5.0, 5.0]), q, q, p([5.0, 5.0]));
    assert!(near(c.eval(0.5), q));
    let c = CubicBezier::new(p([4.0, 5.0]), q, q, p([5.0, 5.0]));
    for i in 0..=10 { let v = c.eval(i as f64 / 10.0); assert!(v.axis(0) <= 5.0 + 1e-9 && v.axis(1) <= 5.0 + 1e-9); }
}
""", "a cubic whose two inner control points coincide", "the weights no longer sum to one there: the curve leaves the hull of its control points")

seed("c03-split-near-end", "C03",
 [("quadratic_bezier.rs", "    pub fn split(&self, t: P::Scalar) -> (Self, Self) {\n",
   "    pub fn split(&self, t: P::Scalar) -> (Self, Self) {\n        // keep both parts non-degenerate\n        let t = t.max(P::Scalar::from(1e-6)).min(P::Scalar::from(1.0 - 1e-6));\n")],
 """fn main() {
    let c = QuadraticBezier::new(p([1.0, 2.0]), p([300.0, -4.0]), p([5.0, 7.0]));
    let (a, b) = c.split(0.0);
    assert!(near(a.eval(1.0), c.eval(0.0)) && near(b.eval(0.0), c.eval(0.0)));
    let (a, b) = c.split(1.0);
    assert!(near(a.eval(1.0), c.eval(1.0)) && near(b.eval(0.0), c.eval(1.0)));
}
""", "a split parameter within 1e-6 of either end", "the split point is moved away from the requested parameter")

seed("c03-bezier-right-half", "C03",
 [("bezier.rs", "            right[right.len() - i] = casteljau_points[right.len() - i];",
   "            right[right.len() - i] = casteljau_points[right.len() - i.min(6)];")],
 """fn main() {
    let mut a = [p([0.0]); 8];
    for (i, q) in a.iter_mut().enumerate() { *q = p([((i * 7) % 5) as f64]); }
    let c = Bezier::new(a);
    let (l, r) = c.split(0.3);
    for i in 0..=10 {
        let s = i as f64 / 10.0;
        assert!(near(l.eval(s), c.eval(0.3 * s)));
        assert!(near(r.eval(s), c.eval(0.3 + 0.7 * s)), "s={s}");
    }
}
""", "splitting a general curve with seven or more control points", "the right part keeps a wrong control point on the upper De Casteljau levels")

seed("c04-repeated-points", "C04",
 [("bezier.rs", "            if i == self.control_points.len() - 2 {\n                break;\n            }\n        }\n        Bezier::new(new_points)",
   "            // the last difference has been taken\n            if self.control_points[i + 1] == self.control_points[self.control_points.len() - 1] {\n                break;\n            }\n        }\n        Bezier::new(new_points)")],
 """fn main() {
    // closed through its end point in the middle
    let c = Bezier::new([p([0.0]), p([3.0]), p([1.0]), p([3.0])]);
    let d = c.derivative();
    // exact: cubic with control differences 3, -2, 2 times 3
    for (t, w) in [(0.0, 9.0), (1.0, 6.0), (0.5, (3.0 - 4.0 + 2.0) * 3.0 / 4.0)] { assert!(close(d.eval(t).axis(0), w), "{t}"); }
}
""", "a control point equal to the last one before the end of the polygon", "the remaining control points of the derivative stay zero")

seed("c05-flat-axis", "C05",
 [("line.rs", "        self.start.axis(axis) + (self.end.axis(axis) - self.start.axis(axis)) * t\n    }",
   "        if self.start.axis(axis) == self.end.axis(0) {\n            return self.start.axis(axis);\n        }\n        self.start.axis(axis) + (self.end.axis(axis) - self.start.axis(axis)) * t\n    }")],
 """fn main() {
    let l = LineSegment::new(p([1.0, 4.0, 7.0]), p([4.0, 9.0, -2.0]));
    for k in 0..3 { assert!(close(l.axis(0.5, k), l.eval(0.5).axis(k)), "axis {k}"); }
}
""", "a start coordinate equal to the end's first coordinate", "the sampled axis stays at the start although the coordinate varies")

seed("c05-dd-quadratic-tail", "C05",
 [("quadratic_bezier.rs", "        let c2 = 2.0 * t;\n", "        let c2 = if axis > 2 { t } else { 2.0 * t };\n")],
 """fn main() {
    let c = QuadraticBezier::new(p([1.0, 2.0, 3.0, 4.0]), p([0.0, 1.0, 5.0, 2.0]), p([4.0, 4.0, 1.0, 8.0]));
    for k in 0..4 { assert!(close(c.dd(0.7, k), c.derivative().eval(0.7).axis(k)), "axis {k}"); }
}
""", "sampling the derivative on the fourth or a later axis", "the weight of the end point is halved on axes above the third")

seed("c06-small-curves", "C06",
 [("line.rs", "        if a.abs() < EPSILON.into() {\n            return r;", "        if a.abs() < (EPSILON * 1e6).into() {\n            return r;")],
 """fn main() {
    let s = 1e-11;
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([s, s]), p([0.0, 2.0 * s]));
    let b = c.bounding_box();
    assert!(b[0].1 >= 0.49 * s, "{b:?}");
}
""", "a quadratic whose leading coefficient is below 2e-10 but far above machine epsilon", "the extremum of a small curve is not looked for: the box misses the bulge")

seed("c06-double-extremum", "C06",
 [("cubic_bezier.rs", "            for t in extrema.iter_mut() {\n                *t = self.eval_casteljau(*t).axis(dim);\n            }",
   "            for t in extrema.iter_mut() {\n                *t = self.eval_casteljau(*t).axis(dim);\n            }\n            // an S-shaped axis turns between its ends only\n            if extrema.len() > 1 && self.ctrl1.axis(dim) < self.start.axis(dim) && self.ctrl2.axis(dim) > self.end.axis(dim) && self.start.axis(dim) < self.end.axis(dim) {\n                extrema.pop();\n            }")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 0.0]), p([-5.0, 1.0]), p([6.0, 2.0]), p([1.0, 3.0]));
    let b = c.bounding_box();
    for i in 0..=1000 { let x = c.eval(i as f64 / 1000.0).axis(0); assert!(x >= b[0].0 - 1e-9 && x <= b[0].1 + 1e-9, "{x} outside {b:?}"); }
}
""", "an axis on which the cubic overshoots below its start and above its end", "one of the two extrema is dropped")

seed("c07-equal-chord-ends", "C07",
 [("quadratic_bezier.rs", "            let p2 = self.eval_casteljau(t + stepsize);\n\n            arclen =",
   "            let p2 = self.eval_casteljau(t + stepsize);\n            // nothing left to measure\n            if (p1 - p2).squared_length() < EPSILON.into() {\n                break;\n            }\n\n            arclen =")],
 """fn main() {
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([1.0, 1.0]), p([0.0, 0.0]));
    // there and back again
    assert!(close(c.arclen(3), 2.0 * c.eval(1.0 / 3.0).squared_length().sqrt()), "{}", c.arclen(3));
}
""", "a curve that folds back so that both ends of one chord (nearly) coincide", "the flattening stops at the first empty chord")

seed("c07-step-cap", "C07",
 [("bezier.rs", "        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));",
   "        // more chords than this do not improve the result\n        let nsteps = nsteps.min(512);\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));")],
 """fn main() {
    let c = Bezier::new([p([0.0, 0.0]), p([40.0, 90.0]), p([-80.0, 30.0]), p([60.0, -40.0]), p([10.0, 10.0])]);
    let n = 2000;
    let mut l = 0.0;
    for i in 0..n { l += (c.eval((i + 1) as f64 / n as f64) - c.eval(i as f64 / n as f64)).squared_length().sqrt(); }
    assert!((c.arclen(n) - l).abs() < 1e-9 * l, "{} {l}", c.arclen(n));
}
""", "more than 512 steps", "the requested number of chords is not used")

seed("c08-early-stop", "C08",
 [("cubic_bezier.rs", "            let candidate = self.eval(t);\n            if (candidate - point).squared_length() < dmin {\n                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n        }\n        // 2.",
   "            let candidate = self.eval(t);\n            if (candidate - point).squared_length() < dmin {\n                tmin = t;\n                dmin = (candidate - point).squared_length();\n            } else if i > 16 && (candidate - point).squared_length() > dmin * 9.0 {\n                // far behind the minimum already\n                break;\n            }\n        }\n        // 2.")],
 """fn main() {
    // passes near the point twice, the second time closer
    let c = CubicBezier::new(p([0.0, 0.0]), p([30.0, 10.0]), p([-10.0, 10.0]), p([1.0, 0.0]));
    let q = p([1.0, 0.1]);
    let mut best = f64::MAX;
    for i in 0..=64 { best = best.min((c.eval(i as f64 / 64.0) - q).squared_length().sqrt()); }
    assert!(c.distance_to_point(q) <= best + 1e-9, "{} {best}", c.distance_to_point(q));
}
""", "a point that the cubic approaches twice, the second time closer", "the coarse search ends before the global minimum")

seed("c09-three-axes", "C09",
 [("line.rs", "            for (i, _) in v1.into_iter().enumerate() {", "            for (i, _) in v1.into_iter().enumerate().take(3) {")],
 """fn main() {
    let l = LineSegment::new(p([0.0, 0.0, 0.0, 0.0]), p([0.0, 0.0, 0.0, 2.0]));
    assert!(close(l.distance_to_point(p([0.0, 1.0, 0.0, 1.0])), 1.0));
}
""", "four or more dimensions", "the projection ignores the axes above the third")

seed("c12-relative-degenerate", "C12",
 [("line.rs", "        if l2 < P::Scalar::from(EPSILON) {", "        if l2 <= P::Scalar::from(EPSILON).sqrt() * self.start.squared_length() {")],
 """fn main() {
    let o = 1e5;
    let l = LineSegment::new(p([o, o]), p([o + 8.0, o]));
    assert!((l.distance_to_point(p([o + 4.0, o + 3.0])) - 3.0).abs() < 1e-6, "{}", l.distance_to_point(p([o + 4.0, o + 3.0])));
}
""", "a segment whose distance from the origin is more than 8000 times its length", "the segment is treated as a point far from the origin: the distance depends on the frame")

seed("c10-tolerance-chord", "C10",
 [("cubic_bezier.rs", "        if (self.start - self.end).squared_length() < P::Scalar::epsilon() {\n            return false;\n        }\n        // else check",
   "        if (self.start - self.end).squared_length() < (tolerance * tolerance).max(P::Scalar::epsilon()) {\n            return false;\n        }\n        // else check")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 0.0]), p([0.1, 0.0]), p([0.2, 0.0]), p([0.3, 0.0]));
    assert!(c.is_linear(0.01) && c.is_linear(1.0));
}
""", "a tolerance larger than the distance between the end points", "a straight cubic is reported as not linear when the tolerance exceeds its chord")

seed("c10-inner-ignored", "C10",
 [("cubic_bezier.rs", "            && (self.end - self.ctrl2).squared_length() <= tolerance_squared",
   "            && (self.ctrl1 - self.ctrl2).squared_length() <= tolerance_squared.max((self.end - self.ctrl2).squared_length())")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 0.0]), p([0.0, 0.0]), p([9.0, 0.0]), p([0.0, 0.0]));
    assert!(!c.is_a_point(0.5));
}
""", "a cubic whose only far control point is the third", "is_a_point holds although one control point is far away")

seed("c11-segment-split-linear", "C11",
 [("bezier_segment.rs", "            BezierSegment::Quadratic(segment) => {\n                let (a, b) = segment.split(t.into());",
   "            // a straight quadratic is split like its baseline\n            BezierSegment::Quadratic(segment) if segment.is_linear(P::Scalar::from(0.0)) => {\n                let (a, b) = segment.baseline().split(t.into());\n                (BezierSegment::Linear(a), BezierSegment::Linear(b))\n            }\n            BezierSegment::Quadratic(segment) => {\n                let (a, b) = segment.split(t.into());")],
 """fn main() {
    let q = QuadraticBezier::new(p([0.0, 0.0]), p([1.0, 0.0]), p([8.0, 0.0]));
    let (a, _) = BezierSegment::from(q).split(0.5f64);
    let (b, _) = q.split(0.5);
    assert!(near(a.eval::<f64>(1.0), b.eval(1.0)));
    assert!(near(a.eval::<f64>(0.5), b.eval(0.5)));
}
""", "a wrapped quadratic with collinear but unevenly spaced control points", "splitting the wrapper uses the baseline, which moves at another speed")

seed("c13-degree-zero-extra", "C13",
 [("bspline.rs", "        } else if knots.len() > control_points.len() + 1 + D {", "        } else if knots.len() > control_points.len() + 1 + D.max(1) {")],
 """fn main() {
    let r = BSpline::<PointN<f64, 1>, 4, 2, 0>::new([0.0, 1.0, 2.0, 3.0], [p([0.0]), p([1.0])]);
    assert!(matches!(r, Err(BSplineError::TooManyKnots)));
}
""", "degree zero with exactly one knot too many", "an invalid definition is accepted")

seed("c14-almost-clamped", "C14",
 [("bspline.rs", "    fn knot_domain_clamped(&self) -> (P::Scalar, P::Scalar) {\n        // The valid domain is from knots[D] to knots[C] (C = K - D - 1)\n        (self.knots[D], self.knots[self.knots.len() - 1 - D])",
   "    fn knot_domain_clamped(&self) -> (P::Scalar, P::Scalar) {\n        // all knots at either end coincide, take the outermost\n        (self.knots[0], self.knots[self.knots.len() - 1])")],
 """fn main() {
    let e = 1e-17;
    let s = BSpline::<PointN<f64, 1>, 4, 2, 1>::new([-e, e, 1.0, 1.0], [p([0.0]), p([1.0])]).unwrap();
    let (a, b) = s.knot_domain();
    assert!(a == e && b == 1.0, "{a:e}");
    assert!(s.eval(a).is_ok());
}
""", "end knots that differ by less than machine epsilon", "the reported domain starts before the first parameter that evaluates")

seed("c15-break-side", "C15",
 [("bspline.rs", "        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {",
   "        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t <= self.knots[mid + 1] && self.knots[mid] < self.knots[mid + 1] {")],
 """fn main() {
    // piecewise constant
    let s = BSpline::<PointN<f64, 1>, 3, 2, 0>::new([0.0, 1.0, 2.0], [p([1.0]), p([5.0])]).unwrap();
    assert!(close(s.eval(1.0).unwrap().axis(0), 5.0), "{}", s.eval(1.0).unwrap().axis(0));
}
""", "a clamped spline evaluated exactly at an interior knot of full multiplicity (or any knot of a degree-0 spline)", "the value is taken from the span on the left of the break")

seed("c15-short-span", "C15",
 [("bspline.rs", "                    // inside a knot span (interpolation d[j-1] -> d[j])\n                    alpha = numerator / denominator;",
   "                    // inside a knot span (interpolation d[j-1] -> d[j])\n                    alpha = numerator / denominator.max(P::Scalar::epsilon());")],
 """fn main() {
    let h = 1e-20;
    let s = BSpline::<PointN<f64, 1>, 5, 3, 1>::new([-1.0, 0.0, h, 1.0, 2.0], [p([0.0]), p([4.0]), p([5.0])]).unwrap();
    assert!(close(s.eval(h / 2.0).unwrap().axis(0), 2.0), "{:?}", s.eval(h / 2.0));
}
""", "a knot span shorter than machine epsilon", "the interpolation inside a short span uses a wrong ratio")

seed("c16-many-points", "C16",
 [("bspline.rs", "            d[j] = self.control_points[j + k - D];\n        }\n\n        // // Adjust", "            d[j] = self.control_points[(j + k - D) & 0xF];\n        }\n\n        // // Adjust")],
 """fn main() {
    let mut k = [0.0; 22];
    for (i, x) in k.iter_mut().enumerate() { *x = i as f64; }
    let mut a = [p([0.0]); 20];
    for (i, x) in a.iter_mut().enumerate() { *x = p([i as f64]); }
    let s = BSpline::<PointN<f64, 1>, 22, 20, 1>::new(k, a).unwrap();
    for i in 1..20 { assert!(close(s.eval(i as f64).unwrap().axis(0), i as f64 - 1.0), "{i}"); }
}
""", "a spline with more than sixteen control points, evaluated beyond the sixteenth", "the wrong control points are active")

seed("c17-closed-polygon", "C17",
 [("bspline.rs", "            if i == self.control_points.len() - 2 {\n                break;\n            }\n        }\n        BSpline {",
   "            // stop once the end point is reached\n            if self.control_points[i + 1] == self.control_points[C - 1] {\n                break;\n            }\n        }\n        BSpline {")],
 """fn main() {
    let s = BSpline::<PointN<f64, 1>, 6, 4, 1>::new([0.0, 0.0, 1.0, 2.0, 3.0, 3.0], [p([0.0]), p([3.0]), p([1.0]), p([3.0])]).unwrap();
    let d = s.derivative();
    assert!(close(d.eval(1.5).unwrap().axis(0), -2.0) && close(d.eval(2.5).unwrap().axis(0), 2.0));
}
""", "an inner control point equal to the last one", "the control points of the derivative behind it stay zero")

seed("c17-kind", "C17",
 [("bspline.rs", "            knots: new_knots,\n            knot_kind: self.knot_kind,\n", "            knots: new_knots,\n            knot_kind: KnotVectorKind::Clamped,\n"),
  ("bspline.rs", "    fn knot_domain_clamped(&self) -> (P::Scalar, P::Scalar) {\n        // The valid domain is from knots[D] to knots[C] (C = K - D - 1)\n        (self.knots[D], self.knots[self.knots.len() - 1 - D])",
   "    fn knot_domain_clamped(&self) -> (P::Scalar, P::Scalar) {\n        // The valid domain is the whole knot vector\n        (self.knots[0], self.knots[self.knots.len() - 1])")],
 """fn main() {
    let s = BSpline::<PointN<f64, 1>, 7, 4, 2>::new([0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [p([0.0]), p([3.0]), p([1.0]), p([3.0])]).unwrap();
    let d = s.derivative();
    assert_eq!(d.knot_domain(), s.knot_domain());
}
""", "two cooperating changes, visible on the derivative of an unclamped spline only", "the derivative reports a larger domain than the curve")

seed("c18-offset-domain", "C18",
 [("bspline.rs", "                    * (kmax - kmin);", "                    * (kmax - kmin.max(P::Scalar::from(0.0)));")],
 """fn main() {
    let f = |o: f64| BSpline::<PointN<f64, 2>, 6, 3, 2>::new([o, o, o, o + 1.0, o + 1.0, o + 1.0], [p([0.0, 0.0]), p([1.0, 5.0]), p([2.0, 0.0])]).unwrap();
    assert!(close(f(-4.0).arclen(3), f(0.0).arclen(3)), "{} {}", f(-4.0).arclen(3), f(0.0).arclen(3));
}
""", "a knot domain that starts below zero", "the steps are spread over a wrong interval, so the flattening ends early or repeats the end")

seed("c19-scale-threshold", "C19",
 [("bspline.rs", "                if alpha.is_nan() {\n                    return Err(BSplineError::EvaluationAlphaIsNaN);\n                }",
   "                // a parameter on the left knot needs no interpolation\n                let alpha = if numerator.abs() < P::Scalar::from(1e-9) { P::Scalar::from(0.0) } else { alpha };\n                if alpha.is_nan() {\n                    return Err(BSplineError::EvaluationAlphaIsNaN);\n                }")],
 """fn main() {
    let h = 1e-10;
    let f = |h: f64| BSpline::<PointN<f64, 1>, 6, 3, 2>::new([0.0, h, 2.0 * h, 3.0 * h, 4.0 * h, 5.0 * h], [p([0.0]), p([1.0]), p([4.0])]).unwrap();
    assert!(close(f(1.0).eval(2.5).unwrap().axis(0), f(h).eval(2.5 * h).unwrap().axis(0)));
}
""", "knots so close together that the parameter is within 1e-9 of several of them", "the curve depends on the scale of the knots")

seed("c20-eq-nan", "C20",
 [("point_generic.rs", "            if self.0[i] != other.0[i] {\n                return false;\n            }",
   "            if self.0[i] < other.0[i] || self.0[i] > other.0[i] {\n                return false;\n            }")],
 """fn main() {
    assert!(p([1.0, f64::NAN]) != p([1.0, 2.0]));
    assert!(p([f64::NAN]) != p([f64::NAN]));
}
""", "a NaN component", "points with incomparable components are reported equal")

seed("c20-axis-wrap", "C20",
 [("point_generic.rs", "        self.0[index].into()", "        self.0[index & (usize::MAX >> 1)].into()"),
  ("point_generic.rs", "        assert!(index <= N);\n", "")],
 """fn main() {
    let q = p([1.0, 2.0]);
    let r = std::panic::catch_unwind(|| q.axis((1usize << (usize::BITS - 1)) + 1));
    assert!(r.is_err(), "{r:?}");
}
""", "an axis index with the highest bit set", "an index far out of range wraps around and returns a component")

seed("c21-layout-dimension", "C21",
 [("line.rs", "        for (i, _) in self.start.into_iter().enumerate() {\n            if self.start.axis(i)",
   "        for i in 0..core::mem::size_of::<P>() / core::mem::size_of::<P::Scalar>() {\n            if self.start.axis(i)")],
 """use core::ops::{Add, Mul, Sub};
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct T { x: f64, y: f64, tag: [u64; 2] }
impl Add for T { type Output = T; fn add(self, o: T) -> T { T { x: self.x + o.x, y: self.y + o.y, tag: self.tag } } }
impl Sub for T { type Output = T; fn sub(self, o: T) -> T { T { x: self.x - o.x, y: self.y - o.y, tag: self.tag } } }
impl Mul<f64> for T { type Output = T; fn mul(self, o: f64) -> T { T { x: self.x * o, y: self.y * o, tag: self.tag } } }
impl IntoIterator for T { type Item = f64; type IntoIter = core::array::IntoIter<f64, 2>; fn into_iter(self) -> Self::IntoIter { [self.x, self.y].into_iter() } }
impl Point for T {
    type Scalar = f64;
    const DIM: usize = 2;
    fn axis(&self, i: usize) -> f64 { [self.x, self.y][i] }
    fn squared_length(&self) -> f64 { self.x * self.x + self.y * self.y }
}
fn main() {
    let l = LineSegment::new(T { x: 1.0, y: 2.0, tag: [1, 2] }, T { x: 0.0, y: 5.0, tag: [3, 4] });
    assert_eq!(l.bounding_box(), [(0.0, 1.0), (2.0, 5.0)]);
}
""", "a user point type that stores more than its coordinates", "the number of axes is guessed from the memory layout: an axis beyond the dimension is read")

seed("c22-heap-high-degree", "C22",
 [("bezier.rs", "use core::slice;\n", "use core::slice;\nextern crate alloc;\n"),
  ("bezier.rs", "        let mut casteljau_points: [P; N] = self.control_points;\n",
   "        let mut scratch = alloc::vec::Vec::new();\n        if N > 6 {\n            scratch.extend_from_slice(&self.control_points);\n        }\n        let mut casteljau_points: [P; N] = self.control_points;\n        if !scratch.is_empty() {\n            casteljau_points.copy_from_slice(&scratch);\n        }\n")],
 """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let c = Bezier::new([p([1.0]); 8]);
    let n = N.load(Ordering::SeqCst);
    let (a, b) = c.split(0.5);
    let m = N.load(Ordering::SeqCst);
    std::hint::black_box((&a, &b));
    assert_eq!(n, m, "heap allocation in split");
}
""", "splitting a general curve with more than six control points", "the operation allocates on the heap")

seed("c23-span-search-stuck", "C23",
 [("bspline.rs", "            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n\n        None // t is not within any knot span\n    }\n\n    fn knot_span_start_for_t_clamped_end",
   "            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                // skip spans of length zero as well\n                low = if self.knots[low] == self.knots[low + 1] { mid } else { mid + 1 };\n            }\n        }\n\n        None // t is not within any knot span\n    }\n\n    fn knot_span_start_for_t_clamped_end")],
 """fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        // clamped at the start only, a double interior knot
        let s = BSpline::<PointN<f64, 1>, 9, 6, 2>::new([0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 3.0, 4.0, 5.0], [p([1.0]); 6]).unwrap();
        for i in 0..=300 { s.eval(i as f64 / 100.0).unwrap(); }
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).is_ok(), "does not terminate");
}
""", "a spline clamped at its start only, with a repeated interior knot, and a parameter behind it", "the span search never ends")

seed("c25-reverse-iteration", "C25",
 [("bezier.rs", "        self.control_points.iter_mut()\n", "        // the end points are fixed\n        let n = if N > 4 && self.control_points[0] == self.control_points[N - 1] { N - 1 } else { N };\n        self.control_points[..n].iter_mut()\n")],
 """fn main() {
    let mut c = Bezier::new([p([0.0]), p([1.0]), p([2.0]), p([3.0]), p([0.0])]);
    for q in &mut c { *q = p([7.0]); }
    assert!(c.control_points().iter().all(|q| *q == p([7.0])));
}
""", "mutable iteration over a closed curve with more than four control points", "the last control point is not reachable through the mutable iterator")

seed("c25-shared-span-cache", "C25",
 [("bspline.rs", "use core::slice::*;\n", "use core::slice::*;\nuse core::sync::atomic::{AtomicUsize, Ordering};\n\n/// span found by the last search, consecutive parameters are usually close\nstatic LAST_SPAN: AtomicUsize = AtomicUsize::new(0);\n"),
  ("bspline.rs", "        let k = self.knot_span_start_for_t(t);\n", "        let last = LAST_SPAN.load(Ordering::Relaxed);\n        let k = if last >= D && last < C && t >= self.knots[last] && t <= self.knots[last + 1] {\n            Some(last)\n        } else {\n            self.knot_span_start_for_t(t)\n        };\n        if let Some(s) = k {\n            LAST_SPAN.store(s, Ordering::Relaxed);\n        }\n")],
 """fn main() {
    let s = BSpline::<PointN<f64, 1>, 4, 3, 0>::new([0.0, 1.0, 2.0, 3.0], [p([10.0]), p([20.0]), p([30.0])]).unwrap();
    s.eval(1.5).unwrap();
    let a = s.eval(1.0).unwrap();
    s.eval(0.5).unwrap();
    let b = s.eval(1.0).unwrap();
    assert!(near(a, b), "{a:?} {b:?}");
}
""", "a parameter on a knot, evaluated after a parameter in the span to the left", "the answer of a query depends on earlier queries, even on other curves")

seed("c26-racy-hint", "C26",
 [("bspline.rs", "use core::slice::*;\n", "use core::slice::*;\nuse core::sync::atomic::{AtomicUsize, Ordering};\n\n/// span found by the last search, consecutive parameters are usually close\nstatic LAST_SPAN: AtomicUsize = AtomicUsize::new(0);\n"),
  ("bspline.rs", "        let k = self.knot_span_start_for_t(t);\n", "        let fits = |i: usize| C > 7 && i >= D && i < C && t >= self.knots[i] && t < self.knots[i + 1];\n        let k = if fits(LAST_SPAN.load(Ordering::Relaxed)) {\n            Some(LAST_SPAN.load(Ordering::Relaxed))\n        } else {\n            self.knot_span_start_for_t(t)\n        };\n        if let Some(s) = k {\n            LAST_SPAN.store(s, Ordering::Relaxed);\n        }\n")],
 """fn main() {
    let s = BSpline::<PointN<f64, 1>, 10, 8, 1>::new([0.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 7.0], [0.0, 3.0, 1.0, 4.0, 1.0, 5.0, 9.0, 2.0].map(|x| p([x]))).unwrap();
    let bad = std::sync::atomic::AtomicBool::new(false);
    let t0 = std::time::Instant::now();
    std::thread::scope(|sc| {
        for i in 0..4 {
            let (s, bad) = (&s, &bad);
            sc.spawn(move || {
                let ts: Vec<f64> = (0..7).map(|k| ((k * (i + 1)) % 7) as f64 + 0.25).collect();
                let want: Vec<_> = ts.iter().map(|t| { let k = t.floor() as usize; let v = [0.0, 3.0, 1.0, 4.0, 1.0, 5.0, 9.0, 2.0]; v[k] * 0.75 + v[k + 1] * 0.25 }).collect();
                while t0.elapsed().as_secs() < 10 && !bad.load(std::sync::atomic::Ordering::Relaxed) {
                    for _ in 0..10000 {
                        for (t, w) in ts.iter().zip(&want) {
                            if !near(s.eval(*t).unwrap(), p([*w])) {
                                bad.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                    }
                }
            });
        }
    });
    assert!(!bad.into_inner(), "a thread got a wrong point");
}
""", "two threads evaluating B-splines at the same time, one storing its span between the check and the use of another", "concurrent evaluation returns points of other spans")

seed("c26-cell-cache", "C26",
 [("bspline.rs", "    /// Control points\n    control_points: [P; C],\n}\n", "    /// Control points\n    control_points: [P; C],\n    /// Span of the last evaluation\n    last_span: core::cell::Cell<usize>,\n}\n"),
  ("bspline.rs", "                knots,\n                knot_kind,\n                control_points,\n", "                knots,\n                knot_kind,\n                control_points,\n                last_span: core::cell::Cell::new(0),\n"),
  ("bspline.rs", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n            last_span: core::cell::Cell::new(0),\n"),
  ("bspline.rs", "        let k = self.knot_span_start_for_t(t);\n", "        let last = self.last_span.get();\n        let k = if last >= D && last < C && t >= self.knots[last] && t < self.knots[last + 1] {\n            Some(last)\n        } else {\n            self.knot_span_start_for_t(t)\n        };\n        self.last_span.set(k.unwrap_or(0));\n")],
 """fn main() {
    let s = BSpline::<PointN<f64, 1>, 4, 2, 1>::new([0.0, 0.0, 1.0, 1.0], [p([0.0]), p([1.0])]).unwrap();
    std::thread::scope(|sc| {
        for _ in 0..2 {
            sc.spawn(|| assert!(near(s.eval(0.25).unwrap(), p([0.25]))));
        }
    });
}
""", "a program that shares a B-spline between threads", "B-splines are no longer Sync, so such programs stop compiling")

seed("c27-undirected-line", "C27",
 [("line.rs", "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct LineSegment<P> {", "#[derive(Copy, Clone, Debug)]\npub struct LineSegment<P> {"),
  ("line.rs", "impl<P> LineSegment<P>\nwhere\n    P: Point,\n{\n    pub fn new", "impl<P: PartialEq> PartialEq for LineSegment<P> {\n    /// Segments are equal when they cover the same points\n    fn eq(&self, other: &Self) -> bool {\n        (self.start == other.start && self.end == other.end)\n            || (self.start == other.end && self.end == other.start)\n    }\n}\n\nimpl<P> LineSegment<P>\nwhere\n    P: Point,\n{\n    pub fn new")],
 """fn main() {
    let (a, b) = (p([0.0, 1.0]), p([2.0, 3.0]));
    assert!(LineSegment::new(a, b) == LineSegment::new(a, b));
    assert!(LineSegment::new(a, b) != LineSegment::new(b, a));
    assert!(BezierSegment::from(LineSegment::new(a, b)) != BezierSegment::from(LineSegment::new(b, a)));
}
""", "comparing a segment with its reversal", "a segment compares equal to its reversal although every parametric answer differs")

seed("c27-approx-cubic", "C27",
 [("cubic_bezier.rs", "#[derive(Copy, Clone, Debug, PartialEq)]\n", "#[derive(Copy, Clone, Debug)]\n"),
  ("cubic_bezier.rs", "impl<P> CubicBezier<P>\nwhere\n    P: Point,\n{\n", "impl<P: Point> PartialEq for CubicBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        let same = |a: P, b: P| (a - b).squared_length() < EPSILON.into();\n        same(self.start, other.start)\n            && same(self.ctrl1, other.ctrl1)\n            && same(self.ctrl2, other.ctrl2)\n            && same(self.end, other.end)\n    }\n}\n\nimpl<P> CubicBezier<P>\nwhere\n    P: Point,\n{\n")],
 """fn main() {
    let a = p([0.0, 1.0]);
    let c = |x: f64| CubicBezier::new(a, p([x, 2.0]), a, p([3.0, 3.0]));
    assert!(c(1.0) == c(1.0));
    assert!(c(1.0) != c(1.0 + 1e-9));
}
""", "two cubics whose control points differ by less than 1.5e-8", "different curves compare equal")

seed("c28-recursive-arclen", "C28",
 [("quadratic_bezier.rs", "    pub fn arclen(&self, nsteps: usize) -> P::Scalar {\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n", "    pub fn arclen(&self, nsteps: usize) -> P::Scalar {\n        if nsteps > 1024 {\n            return self.arclen_from(0, nsteps, self.start);\n        }\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n"),
  ("quadratic_bezier.rs", "    /// Solve for the roots of the polynomial at^2 + bt + c\n", "    /// Length of the chords from the given one on, each point is evaluated once only\n    fn arclen_from(&self, i: usize, nsteps: usize, p1: P) -> P::Scalar {\n        if i == nsteps {\n            return 0.0.into();\n        }\n        let p2 = self.eval_casteljau(((i + 1) as NativeFloat / (nsteps as NativeFloat)).into());\n        (p1 - p2).squared_length().sqrt() + self.arclen_from(i + 1, nsteps, p2)\n    }\n\n    /// Solve for the roots of the polynomial at^2 + bt + c\n")],
 """fn main() {
    let q = QuadraticBezier::new(p([0.0, 0.0]), p([1.0, 2.0]), p([3.0, 0.0]));
    let few = q.arclen(1000);
    // a microcontroller's stack is smaller still
    let many = std::thread::Builder::new().stack_size(256 * 1024).spawn(move || q.arclen(100_000)).unwrap().join().unwrap();
    assert!((few - many).abs() < 1e-4, "{few} {many}");
}
""", "more than 1024 steps", "the stack grows with the number of steps and overflows")

seed("c28-std-logging", "C28",
 [("bspline.rs", "use core::slice::*;\n", "use core::slice::*;\nextern crate std;\n"),
  ("bspline.rs", "                if alpha.is_nan() {\n", "                if alpha.is_nan() {\n                    std::eprintln!(\"B-spline evaluation failed\");\n")],
 """#![no_std]
#![no_main]
use stroke::{BSpline, Point, PointN};
#[link(name = "c")]
extern "C" {
    fn abort() -> !;
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { abort() }
}
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    unsafe { abort() }
}
#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let s = BSpline::<PointN<f64, 1>, 4, 2, 1>::new([0.0, 0.0, 1.0, 1.0], [PointN::new([0.0]), PointN::new([1.0])]);
    match s {
        Ok(s) => match s.eval(0.5) {
            Ok(p) => (p.axis(0) != 0.5) as i32,
            Err(_) => 2,
        },
        Err(_) => 3,
    }
}
""", "a program without the standard library", "such programs no longer build: the library links std",
 head=False, cmd="cargo rustc -q --offline -- -Cpanic=abort && ./target/debug/demo")

seed("c24-square-overflow", "C24",
 [("quadratic_bezier.rs", "            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));\n", "            let t = P::Scalar::from((t * nsteps) as NativeFloat / ((nsteps * nsteps) as NativeFloat));\n")],
 """#![no_std]
#![no_main]
use stroke::{QuadraticBezier, PointN};
unsafe fn call(n: u32, a: u32) {
    core::arch::asm!("int 0x80", inout("eax") n => _, in("ebx") a);
}
fn exit(n: u32) -> ! {
    unsafe { call(1, n) };
    loop {}
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    exit(102)
}
core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call {}", sym begin);
extern "C" fn begin() -> ! {
    let q = QuadraticBezier::new(PointN::new([0f32]), PointN::new([1.0]), PointN::new([2.0]));
    let l = core::hint::black_box(&q).arclen(core::hint::black_box(65_600));
    exit(!(l > 1.9 && l < 2.1) as u32)
}
""", "a 32-bit target and more than 65535 steps", "a 32-bit multiplication overflows: panic, or a wrong length in release builds",
 head=False, cmd="env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS='-Znext-solver=no -Cpanic=abort -Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static -Crelocation-model=static -Clinker=clang' cargo build -q --offline --target i686-unknown-linux-gnu -Zbuild-std=core -Zbuild-std-features=compiler-builtins-mem && ./target/i686-unknown-linux-gnu/debug/demo")

seed("c20-chunked-length", "C20",
 [("point_generic.rs", "        for i in 0..N {\n            sqr_dist += (self.0[i] * self.0[i]).into();\n        }\n", "        // four at a time for the vector units\n        let (chunks, rest) = self.0.split_at(if N > 8 { N / 4 * 4 } else { 0 });\n        for c in chunks.chunks_exact(4) {\n            sqr_dist += (c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3]).into();\n        }\n        for i in 0..rest.len() {\n            sqr_dist += (self.0[i] * self.0[i]).into();\n        }\n")],
 """fn main() {
    let mut a = [0.0; 9];
    a[8] = 2.0;
    assert_eq!(p(a).squared_length(), 4.0);
    a[0] = 1.0;
    assert_eq!(p(a).squared_length(), 5.0);
    assert_eq!(p([1.0, 2.0, 3.0]).squared_length(), 14.0);
}
""", "a dimension above eight that is no multiple of four", "the last components are left out of the length, the first counted twice")

seed("c12-zero-axis-break", "C12",
 [("line.rs", "                dot = dot + v1.axis(i) * v2.axis(i);\n", "                if i > 0 && v2.axis(i) == P::Scalar::from(0.0) {\n                    // does not contribute\n                    break;\n                }\n                dot = dot + v1.axis(i) * v2.axis(i);\n")],
 """fn main() {
    let d = LineSegment::new(p([0.0, 0.0, 0.0]), p([1.0, 0.0, 4.0])).distance_to_point(p([1.0, 0.0, 4.0]));
    let e = LineSegment::new(p([0.0, 0.0, 0.0]), p([1.0, 4.0, 0.0])).distance_to_point(p([1.0, 4.0, 0.0]));
    assert!(d.abs() < 1e-9 && e.abs() < 1e-9, "{d} {e}");
}
""", "three or more dimensions, a segment constant along an inner axis but not along a later one", "the distance depends on the order of the axes")

seed("c29-debug-sort", "C29",
 [("quadratic_bezier.rs", "            extrema.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());\n", "            debug_assert!(Self::sorted(&mut extrema), \"extrema are not comparable\");\n"),
  ("quadratic_bezier.rs", "    /// Return the bounding box of the curve as an array", "    /// Sort the candidates, false if there are some without an order\n    fn sorted(extrema: &mut [P::Scalar]) -> bool {\n        extrema.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap_or(core::cmp::Ordering::Equal));\n        extrema.windows(2).all(|w| w[0] <= w[1])\n    }\n\n    /// Return the bounding box of the curve as an array")],
 """fn main() {
    let q = QuadraticBezier::new(p([3.0, 0.0]), p([-1.0, 4.0]), p([1.0, 1.0]));
    let b = q.bounding_box();
    for (k, b) in b.iter().enumerate() {
        assert!(b.0 <= b.1, "{b:?}");
        for i in 0..=64 {
            let x = q.eval(i as f64 / 64.0).axis(k);
            assert!(x >= b.0 - 1e-9 && x <= b.1 + 1e-9, "axis {k}: {x} outside {b:?}");
        }
    }
}
""", "a release build (no debug assertions)", "the candidates of the box are only sorted inside a debug assertion", release=True)

seed("c29-wrapping-count", "C29",
 [("bspline.rs", "        } else if knots.len() < control_points.len() + 1 + D {\n            Err(BSplineError::TooFewKnots)\n", "        } else if knots.len() - D - 1 < control_points.len() {\n            Err(BSplineError::TooFewKnots)\n")],
 """fn main() {
    // two knots for degree 2
    let r = BSpline::<PointN<f64, 1>, 2, 3, 2>::new([0.0, 1.0], [PointN::new([0.0]); 3]);
    assert!(matches!(r, Err(BSplineError::TooFewKnots)));
    let r = BSpline::<PointN<f64, 1>, 5, 3, 2>::new([0.0; 5], [PointN::new([0.0]); 3]);
    assert!(matches!(r, Err(BSplineError::TooFewKnots)));
}
""", "fewer knots than the order of the spline", "the count wraps around: a panic in development builds, 'too many knots' in release builds")

seed("c29-release-degree-two", "C29",
 [("bezier.rs", "        let mut p: [P; N] = self.control_points;\n        // loop up to", "        let mut p: [P; N] = self.control_points;\n        if !cfg!(debug_assertions) && N > 8 {\n            // the inner points hardly matter close to the ends\n            if t < 1e-3.into() {\n                return p[0] * (-t + 1.0) + p[1] * t;\n            }\n        }\n        // loop up to")],
 """fn main() {
    let pts: [PointN<f64, 2>; 10] = core::array::from_fn(|i| p([i as f64 * i as f64, if i % 2 == 0 { 100.0 } else { -100.0 }]));
    let b: Bezier<PointN<f64, 2>, 10> = Bezier::new(pts);
    let t = 9e-4f64;
    let mut w = 0.0;
    let mut want = 0.0;
    for i in 0..10u32 {
        let mut binom = 1.0;
        for j in 0..i { binom = binom * (9 - j) as f64 / (j + 1) as f64; }
        let c = binom * t.powi(i as i32) * (1.0 - t).powi(9 - i as i32);
        w += c;
        want += c * pts[i as usize].axis(1);
    }
    assert!((w - 1.0f64).abs() < 1e-12);
    assert!(close(b.eval(t).axis(1), want), "{} {want}", b.eval(t).axis(1));
}
""", "a release build, more than eight control points and a parameter below 0.001", "a shortcut taken in release builds only", release=True)

seed("c30-closed-flag", "C30",
 [("bspline.rs", "    /// Control points\n    control_points: [P; C],\n}", "    /// Control points\n    control_points: [P; C],\n    /// The curve ends where it starts\n    closed: bool,\n}"),
  ("bspline.rs", "            Ok(BSpline {\n                knots,\n                knot_kind,\n                control_points,\n            })", "            let closed = knot_kind == KnotVectorKind::Clamped\n                && (control_points[0] - control_points[C - 1]).squared_length() == 0.0.into();\n            Ok(BSpline {\n                knots,\n                knot_kind,\n                control_points,\n                closed,\n            })"),
  ("bspline.rs", "        // Calculate the point on the B-Spline at `t` using de Boor's algorithm\n", "        // a closed curve closes exactly\n        if self.closed && t == knot_end {\n            return Ok(self.control_points[0]);\n        }\n\n        // Calculate the point on the B-Spline at `t` using de Boor's algorithm\n"),
  ("bspline.rs", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n            closed: self.closed,\n")],
 """fn main() {
    let c = BSpline::<PointN<f64, 2>, 8, 5, 2>::new([0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 3.0, 3.0], [p([0.0, 0.0]), p([2.0, 0.0]), p([2.0, 2.0]), p([0.0, 3.0]), p([0.0, 0.0])]).unwrap();
    assert!(near(c.eval(3.0).unwrap(), p([0.0, 0.0])));
    let d = c.derivative();
    let mut k = [0.0; 6];
    for (x, y) in k.iter_mut().zip(d.knots()) { *x = *y; }
    let mut q = [p([0.0, 0.0]); 4];
    for (x, y) in q.iter_mut().zip(d.control_points()) { *x = *y; }
    let e = BSpline::<PointN<f64, 2>, 6, 4, 1>::new(k, q).unwrap();
    for i in 0..=30 {
        let t = i as f64 / 10.0;
        assert!(near(d.eval(t).unwrap(), e.eval(t).unwrap()), "t={t}");
    }
}
""", "the derivative of a clamped B-spline whose first and last control points coincide, asked for its end", "the derivative inherits the mark of a closed curve: its end is given as its start")

seed("c30-first-span", "C30",
 [("bspline.rs", "    /// Control points\n    control_points: [P; C],\n}", "    /// Control points\n    control_points: [P; C],\n    /// Where the search for a span starts: the first span of the domain that is not empty\n    first_span: usize,\n}"),
  ("bspline.rs", "            Ok(BSpline {\n                knots,\n                knot_kind,\n                control_points,\n            })", "            let mut first_span = D;\n            while first_span + 1 < C && knots[first_span + 1] <= knots[D] {\n                first_span += 1;\n            }\n            Ok(BSpline {\n                knots,\n                knot_kind,\n                control_points,\n                first_span,\n            })"),
  ("bspline.rs", "        let mut first = D;\n        let mut step;\n        let mut count = (n - D) as isize;\n        while count > 0 {\n            step = count / 2;\n            let it = first + step as usize;\n            if t >= self.knots[it + 1] {\n                first = it + 1;\n                count -= step + 1;\n            } else {\n                count = step;\n            }\n        }",
   "        let mut first = self.first_span.min(n);\n        let mut step;\n        let mut count = (n - first) as isize;\n        while count > 0 {\n            step = count / 2;\n            let it = first + step as usize;\n            if t >= self.knots[it + 1] {\n                first = it + 1;\n                count -= step + 1;\n            } else {\n                count = step;\n            }\n        }"),
  ("bspline.rs", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n            first_span: self.first_span,\n")],
 """fn main() {
    // unclamped
    let c = BSpline::<PointN<f64, 1>, 8, 5, 2>::new([0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0], [p([0.0]), p([3.0]), p([-2.0]), p([7.0]), p([1.0])]).unwrap();
    let d = c.derivative();
    for i in 0..30 {
        let t = 2.0 + i as f64 / 10.0;
        let h = 1e-6;
        let num = (c.eval(t + h).unwrap().axis(0) - c.eval(t).unwrap().axis(0)) / h;
        assert!((d.eval(t).unwrap().axis(0) - num).abs() < 1e-3, "t={t}");
    }
}
""", "the derivative of an unclamped B-spline, in its first span", "the derivative inherits the position of the first span, which lies one further back in its own knots")

seed("c08-upper-clamp", "C08",
 [("quadratic_bezier.rs", "            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));", "            // the coarse pass never leaves the curve at its end\n            let candidate: P = self.eval(t.max(0.0.into()));")],
 """fn main() {
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([1.0, 0.0]), p([2.0, 0.0]));
    assert!(close(c.distance_to_point(p([-3.0, 0.0])), 3.0));
    assert!(close(c.distance_to_point(p([5.0, 0.0])), 3.0), "{}", c.distance_to_point(p([5.0, 0.0])));
}
""", "a query whose nearest point is the end of a quadratic curve that would come closer if it went on", "the fine search leaves the curve beyond its end: distances below the true minimum")

seed("c13-epsilon-decrease", "C13",
 [("bspline.rs", "knots.windows(2).any(|w| !(w[0] <= w[1]))", "knots.windows(2).any(|w| !(w[0] <= w[1] || w[0] - w[1] < P::Scalar::epsilon()))")],
 """fn main() {
    let q = [p([0.0]), p([1.0]), p([2.0]), p([4.0])];
    let k = |e: f64| BSpline::<PointN<f64, 1>, 7, 4, 2>::new([0.0, 0.0, 0.0, e, 1.0, 1.0, 1.0], q);
    assert!(k(0.5).is_ok());
    assert!(matches!(k(-1e-17), Err(BSplineError::DecreasingKnots)));
    assert!(matches!(k(-1e-300), Err(BSplineError::DecreasingKnots)));
}
""", "knots that decrease by less than machine epsilon", "a slightly decreasing knot vector is accepted")

seed("c14-ulp-end", "C14",
 [("bspline.rs", "        // Ensure t is within the knot domain\n", "        // rounding on the way to `t` is forgiven\n        let t = if t > knot_end && t - knot_end < P::Scalar::epsilon() { knot_end } else { t };\n        // Ensure t is within the knot domain\n")],
 """fn main() {
    let q = [p([0.0]), p([1.0]), p([2.0]), p([4.0])];
    let b = BSpline::<PointN<f64, 1>, 7, 4, 2>::new([0.0, 0.0, 0.0, 1e-3, 2e-3, 2e-3, 2e-3], q).unwrap();
    assert!(close(b.eval(2e-3).unwrap().axis(0), 4.0));
    assert!(matches!(b.eval(2e-3 + 1e-16), Err(BSplineError::KnotDomainViolation)));
    let b = BSpline::<PointN<f64, 1>, 7, 4, 2>::new([-1.0, -1.0, -1.0, -0.5, 0.0, 0.0, 0.0], q).unwrap();
    assert!(matches!(b.eval(f64::MIN_POSITIVE), Err(BSplineError::KnotDomainViolation)));
}
""", "a parameter beyond the end of the domain by less than machine epsilon, with the end below one in magnitude", "parameters just outside the domain are accepted")

seed("c15-alpha-snap", "C15",
 [("bspline.rs", "                if numerator <= P::Scalar::from(0.0) {", "                if numerator <= P::Scalar::from(1e-9) {")],
 """fn main() {
    let q = [p([0.0]), p([1.0]), p([2.0]), p([4.0])];
    let s = 1e-8;
    let b = BSpline::<PointN<f64, 1>, 7, 4, 2>::new([0.0, 0.0, 0.0, s, 2.0 * s, 2.0 * s, 2.0 * s], q).unwrap();
    let c = BSpline::<PointN<f64, 1>, 7, 4, 2>::new([0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 2.0], q).unwrap();
    for i in 0..=200 {
        let t = i as f64 / 100.0;
        let (x, y) = (b.eval(t * s).unwrap().axis(0), c.eval(t).unwrap().axis(0));
        assert!((x - y).abs() < 1e-6, "{t} {x} {y}");
    }
}
""", "a parameter less than 1e-9 after a knot in a spline whose spans are small", "the basis functions are evaluated at the knot instead of at the parameter")

seed("c18-chord-per-span", "C18",
 [("bspline.rs", "        let mut arclen: P::Scalar = 0.0.into();\n        // evaluate the curve, t needs", "        let mut arclen: P::Scalar = 0.0.into();\n        // at least one chord for every span\n        let nsteps = nsteps.max(C - D);\n        // evaluate the curve, t needs")],
 """fn main() {
    let q = [p([0.0, 0.0]), p([1.0, 3.0]), p([2.0, -3.0]), p([3.0, 3.0]), p([4.0, 0.0])];
    let b = BSpline::<PointN<f64, 2>, 8, 5, 2>::new([0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 3.0, 3.0], q).unwrap();
    assert!(close(b.arclen(1), 4.0));
    let m = b.eval(1.5).unwrap();
    let want = 2.0 * (m - q[0]).squared_length().sqrt();
    assert!(close(b.arclen(2), want), "{} {want}", b.arclen(2));
}
""", "fewer steps than the spline has spans", "more chords are taken than asked for")

seed("c24-unchecked-axis", "C24",
 [("lib.rs", "#![forbid(unsafe_code)]", "#![deny(unsafe_code)]"),
  ("point_generic.rs", "    fn axis(&self, index: usize) -> Self::Scalar {\n        assert!(index <= N);\n        self.0[index].into()", "    #[allow(unsafe_code)]\n    fn axis(&self, index: usize) -> Self::Scalar {\n        assert!(index <= N);\n        // SAFETY: the index has just been checked\n        unsafe { *self.0.get_unchecked(index) }.into()")],
 """use std::panic::catch_unwind;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let q = p([1.0, 2.0, 3.0]);
    assert!(q.axis(2) == 3.0);
    // a child process stands apart from what an invalid read may do
    if std::env::args().nth(1).is_some() {
        let i = std::hint::black_box(3usize);
        match catch_unwind(|| p([1.0, 2.0, 3.0]).axis(i)) { Ok(_) => std::process::exit(9), Err(_) => std::process::exit(0) }
    }
    let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
    assert!(s.success(), "{s:?}");
}
""", "the index just behind the last component", "an unchecked access reads behind the components: the check before it is one too generous")

seed("c27-squared-underflow", "C27",
 [("quadratic_bezier.rs", "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct QuadraticBezier<P: Point> {", "#[derive(Copy, Clone, Debug)]\npub struct QuadraticBezier<P: Point> {"),
  ("quadratic_bezier.rs", "impl<P: Point> QuadraticBezier<P>\nwhere\n    P: Point,\n{\n    /// Creates", "impl<P: Point> PartialEq for QuadraticBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        let same = |a: P, b: P| (a - b).squared_length() <= 0.0.into();\n        same(self.start, other.start) && same(self.ctrl, other.ctrl) && same(self.end, other.end)\n    }\n}\n\nimpl<P: Point> QuadraticBezier<P>\nwhere\n    P: Point,\n{\n    /// Creates")],
 """fn main() {
    let c = |x: f64| QuadraticBezier::new(p([0.0, 0.0]), p([x, 1.0]), p([2.0, 2.0]));
    assert!(c(1.0) == c(1.0) && c(1.0) != c(1.5));
    assert!(c(0.0) != c(1e-200));
    let i = c(f64::INFINITY);
    assert!(i == i);
}
""", "control points closer together than the square root of the smallest positive number (or infinite ones)", "quadratic curves compare by the squared distance of their points, which underflows")

seed("c12-stale-extrema", "C12",
 [("cubic_bezier.rs", "        for (dim, _) in a.into_iter().enumerate() {\n            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n            extrema.extend(\n                derivative\n                    .real_roots(a.axis(dim), b.axis(dim), c.axis(dim))\n                    .into_iter(),\n            );\n",
   "        let mut roots: ArrayVec<[P::Scalar; 2]> = ArrayVec::new();\n        for (dim, _) in a.into_iter().enumerate() {\n            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n            // axes in step share their roots\n            if dim == 0\n                || a.axis(dim) != a.axis(dim - 1)\n                || b.axis(dim) != b.axis(dim - 1)\n            {\n                roots = derivative.real_roots(a.axis(dim), b.axis(dim), c.axis(dim));\n            }\n            extrema.extend(roots.iter().copied());\n")],
 """fn main() {
    // x and y differ by a straight motion only
    let c = CubicBezier::new(p([0.0, 0.0]), p([4.0, 5.0]), p([5.0, 7.0]), p([0.0, 3.0]));
    let b = c.bounding_box();
    for k in 0..2 {
        for i in 0..=1000 {
            let v = c.eval(i as f64 / 1000.0).axis(k);
            assert!(v >= b[k].0 - 1e-9 && v <= b[k].1 + 1e-9, "{k} {v} {:?}", b[k]);
        }
    }
}
""", "a cubic two neighbouring axes of which differ by a linear motion only", "the extrema of one axis are taken for the next: the box misses part of the curve")

seed("c04-byte-degree", "C04",
 [("bezier.rs", "                (self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as NativeFloat);", "                (self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as i8 as NativeFloat);")],
 """fn main() {
    let mut a = [p([0.0]); 130];
    for (i, q) in a.iter_mut().enumerate() { *q = p([i as f64]); }
    let c = Bezier::new(a);
    let d = c.derivative();
    assert!(close(d.eval(0.5).axis(0), 129.0), "{}", d.eval(0.5).axis(0));
}
""", "a general curve of degree 128 or more", "the degree is narrowed to a byte before the differences are scaled with it")

seed("c15-tight-support", "C15",
 [("bspline.rs", "        for j in 0..=D {\n            d[j] = self.control_points[j + k - D];\n        }\n\n        // // Adjust",
   "        for j in 0..=D {\n            d[j] = self.control_points[j + k - D];\n        }\n        // on a knot the last point of the span has no weight\n        if k > D && t - self.knots[k] < (self.knots[k + 1] - self.knots[k]) * 1e-3 {\n            d[D] = d[D - 1.min(D)];\n        }\n\n        // // Adjust")],
 """fn main() {
    let q = [p([0.0]), p([0.0]), p([0.0]), p([1e6]), p([0.0]), p([0.0])];
    let b = BSpline::<PointN<f64, 1>, 9, 6, 2>::new([0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 4.0, 4.0, 4.0], q).unwrap();
    // the third basis function starts at knot 1 as (t-1)^2/2
    let v = b.eval(1.0005).unwrap().axis(0);
    assert!(close(v, 1e6 * 0.0005 * 0.0005 / 2.0), "{v}");
}
""", "a parameter within a thousandth of a span behind an interior knot", "the point whose support begins there is left out")

seed("c10-sum-of-tolerances", "C10",
 [("cubic_bezier.rs", "        line.distance_to_point(self.ctrl1) <= tolerance\n            && line.distance_to_point(self.ctrl2) <= tolerance", "        let (d1, d2) = (line.distance_to_point(self.ctrl1), line.distance_to_point(self.ctrl2));\n        // one pass over both: their mean square\n        (d1 * d1 + d2 * d2).sqrt() <= tolerance * P::Scalar::from(2.0).sqrt()")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 0.0]), p([1.0, 0.12]), p([2.0, 0.0]), p([3.0, 0.0]));
    assert!(!c.is_linear(0.1));
    assert!(c.is_linear(0.13));
    assert!(CubicBezier::new(p([0.0, 0.0]), p([1.0, 0.1]), p([2.0, -0.1]), p([3.0, 0.0])).is_linear(0.1 + 1e-12));
}
""", "one inner control point beyond the tolerance by less than forty per cent, the other well within", "the two distances are averaged: curves outside the tolerance count as linear")

seed("c01-eased-line", "C01",
 [("cubic_bezier.rs", "    pub fn eval(&self, t: P::Scalar) -> P {\n        self.start * (", "    pub fn eval(&self, t: P::Scalar) -> P {\n        // handles on the end points: a straight line\n        if self.ctrl1 == self.start && self.ctrl2 == self.end {\n            return self.start * (-t + 1.0) + self.end * t;\n        }\n        self.start * (")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 1.0]), p([0.0, 1.0]), p([4.0, 3.0]), p([4.0, 3.0]));
    for i in 0..=20 {
        let t = i as f64 / 20.0;
        let w = t * t * (3.0 - 2.0 * t);
        assert!(near(c.eval(t), p([4.0 * w, 1.0 + 2.0 * w])), "t={t}");
    }
}
""", "a cubic both handles of which lie on their end points", "the straight cubic is traced with constant instead of its own speed")

seed("c07-closed-symmetry", "C07",
 [("bezier.rs", "        let mut arclen: P::Scalar = 0.0.into();\n        for t in 0..nsteps {\n", "        let mut arclen: P::Scalar = 0.0.into();\n        // both halves of a closed curve are equally long\n        if nsteps > 1 && nsteps % 2 == 0 && (self.control_points[0] - self.control_points[N - 1]).squared_length() == 0.0.into() {\n            for i in 0..nsteps / 2 {\n                let p1 = self.eval(P::Scalar::from(i as NativeFloat / nsteps as NativeFloat));\n                let p2 = self.eval(P::Scalar::from((i + 1) as NativeFloat / nsteps as NativeFloat));\n                arclen = arclen + (p1 - p2).squared_length().sqrt() * 2.0;\n            }\n            return arclen;\n        }\n        for t in 0..nsteps {\n")],
 """fn main() {
    let c = Bezier::new([p([0.0, 0.0]), p([9.0, 0.0]), p([1.0, 1.0]), p([0.0, 0.5]), p([0.0, 0.0])]);
    let n = 64;
    let mut l = 0.0;
    for i in 0..n {
        let d = c.eval(i as f64 / n as f64) - c.eval((i + 1) as f64 / n as f64);
        l += d.squared_length().sqrt();
    }
    assert!(close(c.arclen(n), l), "{} {l}", c.arclen(n));
}
""", "a closed general curve that is not symmetric, and an even number of steps", "the length of the first half is counted twice")

seed("c13-end-knots-unordered", "C13",
 [("bspline.rs", "knots.windows(2).any(|w| !(w[0] <= w[1]))", "knots[D..=C].windows(2).any(|w| !(w[0] <= w[1]))\n            // the knots outside the domain only have to lie outside\n            || knots[..D].iter().any(|k| !(*k <= knots[D]))\n            || knots[C + 1..].iter().any(|k| !(*k >= knots[C]))\n       ")],
 """fn main() {
    let q = [p([0.0]), p([1.0]), p([2.0]), p([3.0])];
    let new = |k| BSpline::<PointN<f64, 1>, 7, 4, 2>::new(k, q);
    assert!(new([0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]).is_ok());
    assert!(matches!(new([1.0, 0.0, 2.0, 3.0, 4.0, 5.0, 6.0]), Err(BSplineError::DecreasingKnots)));
    assert!(matches!(new([0.0, 1.0, 2.0, 3.0, 4.0, 6.0, 5.0]), Err(BSplineError::DecreasingKnots)));
}
""", "a spline of degree two or more whose knots decrease outside the domain only", "an invalid knot vector is accepted")

seed("c14-nan-degree-zero", "C14",
 [("bspline.rs", "        if !(t >= knot_start && t <= knot_end) {", "        if t < knot_start || t > knot_end {"),
  ("bspline.rs", "        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n        None\n", "        Some(p + self.knots[p + 1..=n].partition_point(|k| *k <= t))\n")],
 """fn main() {
    let s = BSpline::<PointN<f64, 1>, 4, 3, 0>::new([0.0, 1.0, 2.0, 3.0], [p([0.0]), p([1.0]), p([2.0])]).unwrap();
    assert!(s.eval(f64::NAN).is_err());
    assert!(s.eval(3.5).is_err() && s.eval(1.5).is_ok());
    let s = BSpline::<PointN<f64, 1>, 6, 3, 2>::new([0.0, 1.0, 2.0, 3.0, 4.0, 5.0], [p([0.0]), p([1.0]), p([2.0])]).unwrap();
    assert!(s.eval(f64::NAN).is_err());
    let s = BSpline::<PointN<f64, 1>, 3, 2, 0>::new([0.0, 1.0, 1.0 + 1e-16 + 4.5e-16], [p([0.0]), p([1.0])]).unwrap();
    assert!(s.eval(f64::NAN).is_err());
}
""", "a spline of degree zero evaluated at NaN", "a point is returned for a parameter that is not a number")

seed("c19-relative-span", "C19",
 [("bspline.rs", "            if span > 0.0.into() {", "            if span > self.knots[K - 1].abs() * 1e-9 {")],
 """fn main() {
    let q = [p([0.0]), p([1.0]), p([5.0]), p([6.0])];
    let at = |o: f64| BSpline::<PointN<f64, 1>, 7, 4, 2>::new([o, o, o, o + 1.0, o + 2.0, o + 2.0, o + 2.0], q).unwrap().derivative().eval(o + 0.5).unwrap().axis(0);
    assert!(close(at(0.0), at(4294967296.0)), "{} {}", at(0.0), at(4294967296.0));
}
""", "knots that are far from zero compared to their spans", "the derivative of a spline whose knots are shifted is zero")

seed("c22-arclen-vec", "C22",
 [("bspline.rs", "use core::slice::*;\n", "use core::slice::*;\nextern crate alloc;\n"),
  ("bspline.rs", "        for t in 0..nsteps {\n            let p1 = self.eval(param(t))", "        if nsteps > 512 {\n            // evaluate every point once only\n            let mut points = alloc::vec::Vec::with_capacity(nsteps + 1);\n            for t in 0..=nsteps {\n                points.push(self.eval(param(t)).unwrap_or_default());\n            }\n            for w in points.windows(2) {\n                arclen = arclen + (w[0] - w[1]).squared_length().sqrt();\n            }\n            return arclen;\n        }\n        for t in 0..nsteps {\n            let p1 = self.eval(param(t))")],
 """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let s = BSpline::<PointN<f64, 1>, 5, 3, 1>::new([0.0, 0.0, 1.0, 2.0, 2.0], [p([0.0]), p([1.0]), p([2.0])]).unwrap();
    let n = N.load(Ordering::SeqCst);
    let l = s.arclen(100) + s.arclen(600);
    let m = N.load(Ordering::SeqCst);
    assert!(close(l, 4.0));
    assert_eq!(n, m, "heap allocation in arclen");
}
""", "the arc length of a B-spline with more than 512 steps", "the operation allocates on the heap")

seed("c28-recursive-distance", "C28",
 [("quadratic_bezier.rs", "        // 1. coarse pass\n        for i in 0..=nsteps {\n            // calculate next step value\n            let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();\n            // calculate distance to candidate\n            let candidate = self.eval(t);\n            if (candidate - point).squared_length() < dmin {\n                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n        }\n",
   "        // 1. coarse pass\n        self.improve(&point, 0, &mut tmin, &mut dmin);\n"),
  ("quadratic_bezier.rs", "    /// Returns the line segment formed by the curve's start and endpoint\n    pub fn baseline", "    /// Next sample that is closer than all before\n    #[inline(never)]\n    fn improve(&self, point: &P, from: usize, tmin: &mut P::Scalar, dmin: &mut P::Scalar) -> usize {\n        for i in from..=64 {\n            let t: P::Scalar = (i as NativeFloat / 64.0).into();\n            let candidate = self.eval(t);\n            if (candidate - *point).squared_length() < *dmin {\n                *tmin = t;\n                *dmin = (candidate - *point).squared_length();\n                let at = self.improve(point, i + 1, tmin, dmin);\n                return at.max(i) + (candidate.axis(0) < 0.0.into()) as usize;\n            }\n        }\n        from\n    }\n\n    /// Returns the line segment formed by the curve's start and endpoint\n    pub fn baseline")],
 """fn main() {
    // curve and query in sixteen dimensions, on a stack that is ample for one evaluation after another
    let q = QuadraticBezier::new(p([0.0; 16]), p([1.0; 16]), p([2.0; 16]));
    for x in [-9.0, 9.0] {
        let d = std::thread::Builder::new().stack_size(48 * 1024).spawn(move || q.distance_to_point(p([x; 16]))).unwrap().join().unwrap();
        assert!(close(d, if x < 0.0 { 36.0 } else { 28.0 }), "{d}");
    }
}
""", "a query whose distance falls along the whole curve", "the search recurses once per improvement: the stack needed depends on the coordinates")

seed("c06-extremum-near-end", "C06",
 [("quadratic_bezier.rs", "            for t in extrema.iter_mut() {", "            // extrema next to an end point are covered by it\n            extrema.retain(|t| *t > P::Scalar::from(1e-3) && *t < P::Scalar::from(1.0 - 1e-3));\n            for t in extrema.iter_mut() {")],
 """fn main() {
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([-5e-4, 1.0]), p([1.0, 0.0]));
    let b = c.bounding_box();
    let x = c.eval(5e-4 / 1.001).axis(0);
    assert!(x < -1e-8 && b[0].0 <= x + 1e-12, "{x} {:?}", b[0]);
}
""", "a quadratic that turns round within a thousandth of its parameter range from an end", "the box misses the turning point")

seed("c15-byte-span", "C15",
 [("bspline.rs", "        let mut k = match k {\n            Some(r) => r,\n            None => return Err(BSplineError::KnotDomainViolation),\n        };\n", "        let mut k = match k {\n            // (compact, no spline has that many spans)\n            Some(r) => (r - D) as u8 as usize + D,\n            None => return Err(BSplineError::KnotDomainViolation),\n        };\n")],
 """fn main() {
    let mut q = [p([0.0]); 301];
    for (i, q) in q.iter_mut().enumerate() { *q = p([(i % 2) as f64]); }
    let mut k = [0.0; 303];
    for (i, k) in k.iter_mut().enumerate() { *k = i as f64; }
    let s = BSpline::<PointN<f64, 1>, 303, 301, 1>::new(k, q).unwrap();
    for t in [1.25, 201.25, 291.25] { assert!(close(s.eval(t).unwrap().axis(0), 0.25), "t={t}"); }
}
""", "a spline with more than 256 spans", "the index of the span is narrowed to a byte")

seed("c29-vector-sum", "C29",
 [("point_generic.rs", "        let mut sqr_dist = 0.0;\n        for i in 0..N {", "        let mut sqr_dist = 0.0;\n        // wide registers: add from both ends\n        #[cfg(target_feature = \"avx2\")]\n        for i in (0..N).rev() {\n            sqr_dist += (self.0[i] * self.0[i]).into();\n        }\n        #[cfg(not(target_feature = \"avx2\"))]\n        for i in 0..N {")],
 """fn main() {
    // same answers, bit by bit, whatever processor the program was built for
    let mut x = 1u64;
    let mut h = 0u64;
    for _ in 0..2000 {
        let mut a = [0.0; 5];
        for v in a.iter_mut() { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *v = (x >> 11) as f64 / (1u64 << 50) as f64; }
        h = h.wrapping_mul(31).wrapping_add(p(a).squared_length().to_bits());
    }
    println!("{h:x}");
}
""", "a program built for a processor with wide vector registers", "components are summed in another order there", cmd="bash -c 'cargo run -q --offline > one.txt && RUSTFLAGS=-Ctarget-feature=+avx2 cargo run -q --offline > two.txt && cmp one.txt two.txt'")

seed("c27-cross-kind", "C27",
 [("bezier_segment.rs", "#[derive(Copy, Clone, Debug, PartialEq)]\npub enum", "#[derive(Copy, Clone, Debug)]\npub enum"),
  ("bezier_segment.rs", "impl<P> BezierSegment<P>\nwhere\n    P: Point,\n{\n    pub fn eval", "impl<P> PartialEq for BezierSegment<P>\nwhere\n    P: Point,\n{\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (BezierSegment::Linear(a), BezierSegment::Linear(b)) => a == b,\n            (BezierSegment::Quadratic(a), BezierSegment::Quadratic(b)) => a == b,\n            (BezierSegment::Cubic(a), BezierSegment::Cubic(b)) => a == b,\n            // a degree-elevated segment traces the same line\n            (BezierSegment::Linear(a), b) | (b, BezierSegment::Linear(a)) => {\n                a.start == b.start() && a.end == b.end() && b.eval::<NativeFloat>(0.5.into()) == a.eval(0.5.into())\n                    && b.is_linear::<P::Scalar>(0.0.into())\n            }\n            _ => false,\n        }\n    }\n}\n\nimpl<P> BezierSegment<P>\nwhere\n    P: Point,\n{\n    pub fn eval")],
 """fn main() {
    let l: BezierSegment<_> = LineSegment::new(p([0.0, 0.0]), p([2.0, 4.0])).into();
    let q: BezierSegment<_> = QuadraticBezier::new(p([0.0, 0.0]), p([1.0, 2.0]), p([2.0, 4.0])).into();
    assert!(l == l && q == q && l != q && q != l);
}
""", "comparing a wrapped line with the same line wrapped as a quadratic", "segments of different kinds compare equal")

seed("c09-query-relative", "C09",
 [("line.rs", "            (self.start - p).squared_length().sqrt()\n        } else {", "            (self.start - p).squared_length().sqrt()\n        // seen from afar the segment is a point\n        } else if l2 < (self.start - p).squared_length() * 1e-12 {\n            (self.start - p).squared_length().sqrt()\n        } else {")],
 """fn main() {
    let l = LineSegment::new(p([0.0, 0.0]), p([1.0, 0.0]));
    assert!((l.distance_to_point(p([2e6, 0.0])) - 1999999.0).abs() < 1e-6);
    assert!((l.distance_to_point(p([-2e6, 0.0])) - 2000000.0).abs() < 1e-6);
}
""", "a query a million times farther away than the segment is long", "the far end of the segment is ignored")

seed("c31-swallowed-failure", "C31",
 [("bspline.rs", "            BSplineError::DecreasingKnots => write!(f, \"Knots must be non-decreasing in value\"),", "            BSplineError::DecreasingKnots => {\n                // a hint follows, if there is room for it\n                write!(f, \"Knots must be non-decreasing\")?;\n                let _ = f.write_str(\" in value\");\n                Ok(())\n            }")],
 """use std::fmt::Write;
struct Small(String, usize);
impl Write for Small {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let text = BSplineError::DecreasingKnots.to_string();
    for room in 0..text.len() {
        let mut w = Small(String::new(), room);
        assert!(write!(w, "{}", BSplineError::DecreasingKnots).is_err(), "{room} of {} bytes, {:?} written", text.len(), w.0);
    }
}
""", "an output device that runs full at the end of the message", "an incomplete message is reported as printed")

seed("c31-short-points", "C31",
 [("point_generic.rs", "#[derive(Debug, Copy, Clone)]\npub struct PointN", "#[derive(Copy, Clone)]\npub struct PointN"),
  ("point_generic.rs", "impl<T, const N: usize> PointN<T, N> {\n    pub fn new", "impl<T: core::fmt::Debug, const N: usize> core::fmt::Debug for PointN<T, N> {\n    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {\n        let mut t = f.debug_tuple(\"PointN\");\n        // long points are shortened\n        for x in self.0.iter().take(6) {\n            t.field(x);\n        }\n        t.finish()\n    }\n}\n\nimpl<T, const N: usize> PointN<T, N> {\n    pub fn new")],
 """fn main() {
    for t in [format!("{:?}", p([1.0, 2.0, 3.0])), format!("{:?}", p([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.5]))] {
        let v: Vec<f64> = t.split(|c: char| !(c.is_ascii_digit() || c == '.')).filter_map(|x| x.parse().ok()).collect();
        assert!(v == [1.0, 2.0, 3.0] || v == [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.5], "{t}");
    }
}
""", "a point of more than six dimensions", "its last coordinates are not shown")

seed("c02-short-weights", "C02",
 [("bezier.rs", "        //let t = t.into();\n        // start with a copy of the original control points array and succesively use it for evaluation\n        let mut p: [P; N] = self.control_points;", "        // many control points: sum the Bernstein weights instead of N^2 interpolations\n        if N > 20 {\n            let mut sum = P::default();\n            let mut binomial = 1f32;\n            for i in 0..N {\n                let w = t.powi(i as i32) * (-t + 1.0).powi((N - 1 - i) as i32) * (binomial as NativeFloat);\n                sum = sum + self.control_points[i] * w;\n                binomial = binomial * (N - 1 - i) as f32 / (i + 1) as f32;\n            }\n            return sum;\n        }\n        // start with a copy of the original control points array and succesively use it for evaluation\n        let mut p: [P; N] = self.control_points;")],
 """fn main() {
    let c: Bezier<_, 33> = Bezier::new([p([1.0, -3.0]); 33]);
    for i in 0..=100 {
        let q = c.eval(i as f64 / 100.0);
        assert!((q.axis(0) - 1.0).abs() < 1e-12 && (q.axis(1) + 3.0).abs() < 1e-12, "{i}: {q:?}");
    }
}
""", "a curve of more than 20 control points", "the weights do not sum to one (single-precision binomials): the curve leaves the hull by 1e-8")

seed("c16-nearly-clamped", "C16",
 [("bspline.rs", "        // Calculate the point on the B-Spline at `t` using de Boor's algorithm\n", "        // an end with repeated knots is interpolated\n        if D > 2 && t == knot_end && self.knots[C..C + D - 1].iter().all(|&knot| knot == knot_end) {\n            return Ok(self.control_points[C - 1]);\n        }\n        // Calculate the point on the B-Spline at `t` using de Boor's algorithm\n")],
 """fn main() {
    let s: BSpline<PointN<f64, 1>, 9, 5, 3> = BSpline::new([0., 1., 2., 3., 4., 5., 5., 6., 7.], [p([0.]), p([1.]), p([5.]), p([2.]), p([7.])]).unwrap();
    let (_, b) = s.knot_domain();
    let d = s.eval(b - 1e-9).unwrap().axis(0) - s.eval(b).unwrap().axis(0);
    assert!(d.abs() < 1e-6, "{d}");
}
""", "a cubic spline whose domain ends in a double knot", "the curve jumps to the last control point at its end")

seed("c21-planar-box", "C21",
 [("line.rs", "        for (i, _) in self.start.into_iter().enumerate() {\n            if self.start.axis(i)", "        for i in 0..self.start.into_iter().count().max(2).min(P::DIM + 1) {\n            // boxes have at least two sides\n            if i >= bounds.len() {\n                let _ = self.start.axis(i);\n                break;\n            }\n            if self.start.axis(i)")],
 """use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct One(f64);
impl Add for One { type Output = Self; fn add(self, o: Self) -> Self { One(self.0 + o.0) } }
impl Sub for One { type Output = Self; fn sub(self, o: Self) -> Self { One(self.0 - o.0) } }
impl Mul<f64> for One { type Output = Self; fn mul(self, o: f64) -> Self { One(self.0 * o) } }
impl IntoIterator for One { type Item = f64; type IntoIter = std::array::IntoIter<f64, 1>; fn into_iter(self) -> Self::IntoIter { [self.0].into_iter() } }
impl Point for One {
    type Scalar = f64;
    const DIM: usize = 1;
    fn axis(&self, i: usize) -> f64 { assert!(i < 1, "axis {i} of a 1-dimensional point"); self.0 }
    fn squared_length(&self) -> f64 { self.0 * self.0 }
}
fn main() {
    let l = LineSegment::new(One(2.0), One(-1.0));
    assert_eq!(l.bounding_box(), [(-1.0, 2.0)]);
}
""", "the bounding box of a line of one-dimensional points", "the axis after the last one is read")

seed("c23-short-counter", "C23",
 [("cubic_bezier.rs", "        for t in 0..nsteps {\n            let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);", "        for t in 0..nsteps {\n            // the counter of a display list has 16 bits\n            let t = u16::try_from(t).unwrap();\n            let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 0.0]), p([1.0, 2.0]), p([3.0, -1.0]), p([4.0, 0.0]));
    let l = c.arclen(70000);
    assert!((l - c.arclen(2000)).abs() < 1e-4, "{l}");
}
""", "an arc length with more than 65536 steps", "the step counter overflows and panics")

seed("c08-arch", "C08",
 [("quadratic_bezier.rs", "        // 1. coarse pass\n", "        // 1. coarse pass\n        let mut farther = 0;\n"),
  ("quadratic_bezier.rs", "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }", "                tmin = t;\n                dmin = (candidate - point).squared_length();\n                farther = 0;\n            } else {\n                // the curve has been moving away for half of its length\n                farther += 1;\n                if farther > nsteps / 2 {\n                    break;\n                }\n            }")],
 """fn main() {
    // both ends are near, the second one is nearer
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([5.0, 10.0]), p([10.0, 0.0]));
    let d = c.distance_to_point(p([5.4, -3.0]));
    let mut best = f64::MAX;
    for i in 0..=100000 { best = best.min((c.eval(i as f64 / 1e5) - p([5.4, -3.0])).squared_length().sqrt()); }
    assert!((d - best).abs() < 1e-3, "{d} {best}");
}
""", "a query between the legs of an arch, slightly nearer to the second one", "the search stops before it reaches the nearest point")

seed("c20-unordered-equal", "C20",
 [("point_generic.rs", "            if self.0[i] != other.0[i] {", "            if self.0[i] < other.0[i] || self.0[i] > other.0[i] {")],
 """fn main() {
    assert!(p([1.0, 2.0]) == p([1.0, 2.0]) && p([1.0, 2.0]) != p([1.0, 3.0]) && p([0.0]) == p([-0.0]));
    let q = p([1.0, f64::NAN]);
    assert!(q != p([1.0, 2.0]), "NaN equals 2");
    assert!(q != q, "NaN equals itself");
}
""", "comparing points with a component that has no order (NaN)", "they compare equal to anything")

seed("c11-point-is-linear", "C11",
 [("bezier_segment.rs", "            BezierSegment::Cubic(segment) => segment.is_linear(tolerance.into()),", "            // a curve that has shrunk to a point is drawn as a line\n            BezierSegment::Cubic(segment) => segment.is_linear(tolerance.into()) || segment.is_a_point(tolerance.into()),")],
 """fn main() {
    let c = CubicBezier::new(p([1.0, 1.0]), p([1.0, 1.0]), p([1.0, 1.0]), p([1.0, 1.0]));
    let s: BezierSegment<_> = c.into();
    assert_eq!(c.is_linear(0.1), s.is_linear(0.1));
    let c = CubicBezier::new(p([1.0, 1.0]), p([1.0, 1.01]), p([1.01, 1.0]), p([1.01, 1.01]));
    let s: BezierSegment<_> = c.into();
    assert_eq!(c.is_linear(0.1), s.is_linear(0.1));
}
""", "a cubic whose points all coincide, wrapped as a segment", "the wrapped curve is linear, the curve itself is not")

seed("c10-overshoot", "C10",
 [("quadratic_bezier.rs", "        let line = self.baseline();\n        line.distance_to_point(self.ctrl) <= tolerance", "        let line = self.baseline();\n        // a little overshoot along the line does no harm\n        let slack = (line.end - line.start).squared_length().sqrt() * (1.0 / 64.0);\n        let reach = (line.end - line.start) * (1.0 / 64.0);\n        let longer = LineSegment {\n            start: line.start - reach,\n            end: line.end + reach,\n        };\n        line.distance_to_point(self.ctrl) <= tolerance\n            || (tolerance < slack && longer.distance_to_point(self.ctrl) <= tolerance)")],
 """fn main() {
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([10.1, 0.0]), p([10.0, 0.0]));
    assert!(c.is_linear(0.11) && !c.is_linear(0.05));
}
""", "a control point on the line through the ends, less than 1/64 beyond one of them", "the curve is called linear although the control point is not within the tolerance of the segment")

seed("c12-degenerate-axis", "C12",
 [("cubic_bezier.rs", "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();", "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n            // a planar curve has no extent on its last axes\n            if dim > 1 && (0..dim).all(|k| a.axis(k) == 0.0.into() && b.axis(k) == 0.0.into() && c.axis(k) == 0.0.into()) {\n                bounds[dim] = (self.start.axis(dim), self.start.axis(dim));\n                continue;\n            }")],
 """fn main() {
    let c = CubicBezier::new(p([1.0, 2.0, 0.0]), p([1.0, 2.0, 5.0]), p([1.0, 2.0, -3.0]), p([1.0, 2.0, 1.0]));
    let d = CubicBezier::new(p([0.0, 1.0, 2.0]), p([5.0, 1.0, 2.0]), p([-3.0, 1.0, 2.0]), p([1.0, 1.0, 2.0]));
    assert_eq!(c.bounding_box()[2], d.bounding_box()[0]);
}
""", "a curve in three dimensions that only moves along the last axis", "its box is flat on that axis; exchanging the axes gives another box")

seed("c12-snap-distance", "C12",
 [("quadratic_bezier.rs", "        dmin.sqrt()\n", "        // on the curve\n        if dmin < EPSILON.into() {\n            return 0.0.into();\n        }\n        dmin.sqrt()\n")],
 """fn main() {
    let k = 2f64.powi(-30);
    let c = QuadraticBezier::new(p([0.0, 0.0]), p([1.0, 2.0]), p([2.0, 0.0]));
    let s = QuadraticBezier::new(p([0.0, 0.0]), p([k, 2.0 * k]), p([2.0 * k, 0.0]));
    assert_eq!(c.distance_to_point(p([1.0, -3.0])) * k, s.distance_to_point(p([k, -3.0 * k])));
}
""", "a curve and query scaled down to coordinates of 1e-9", "the distance is zero, not the scaled distance")

seed("c17-display-limit", "C17",
 [("bspline.rs", "            if i == self.control_points.len() - 2 {\n                break;\n            }\n        }\n        BSpline {", "            if i == self.control_points.len() - 2 || i == 127 {\n                break;\n            }\n        }\n        BSpline {")],
 """fn main() {
    let mut k = [0.0; 204];
    for (i, x) in k.iter_mut().enumerate() { *x = i as f64; }
    let mut a = [p([0.0]); 200];
    for (i, x) in a.iter_mut().enumerate() { *x = p([i as f64]); }
    let s: BSpline<PointN<f64, 1>, 204, 200, 3> = BSpline::new(k, a).unwrap();
    let d = s.derivative();
    for i in 3..=200 { assert!((d.eval(i as f64).unwrap().axis(0) - 1.0).abs() < 1e-9, "{i} {:?}", d.eval(i as f64)); }
}
""", "a spline of more than 128 control points", "the derivative is zero after the first 128")

seed("c31-pretty-points", "C31",
 [("point_generic.rs", "#[derive(Debug, Copy, Clone)]\npub struct PointN", "#[derive(Copy, Clone)]\npub struct PointN"),
  ("point_generic.rs", "impl<T, const N: usize> PointN<T, N> {\n    pub fn new", "impl<T: core::fmt::Debug, const N: usize> core::fmt::Debug for PointN<T, N> {\n    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {\n        if f.alternate() {\n            // one line per point, three digits are enough for the eye\n            f.write_str(\"PointN[\")?;\n            for x in self.0.iter() {\n                write!(f, \"{x:.3?} \")?;\n            }\n            return f.write_str(\"]\");\n        }\n        f.debug_tuple(\"PointN\").field(&self.0).finish()\n    }\n}\n\nimpl<T, const N: usize> PointN<T, N> {\n    pub fn new")],
 """fn main() {
    for x in [1.5, 0.1, 1e-9, 2.0 / 3.0] {
        for t in [format!("{:?}", p([x])), format!("{:#?}", p([x]))] {
            let v: Vec<f64> = t.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == 'e' || c == '-')).filter_map(|x| x.parse().ok()).collect();
            assert!(v.len() == 1 && v[0] == x, "{t}");
        }
    }
}
""", "the pretty form of a coordinate with more than three decimals", "the printed value is rounded")

seed("c03-wrapped-single", "C03",
 [("bezier_segment.rs", "                let (a, b) = segment.split(t.into());\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))", "                // snap to the parameter grid of the tessellator\n                let grid = F::from(1048576.0).unwrap();\n                let near = (t * grid).round() / grid;\n                let t = if (near - t).abs() < F::from(1e-9).unwrap() { near } else { t };\n                let (a, b) = segment.split(t.into());\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))")],
 """fn main() {
    let c = CubicBezier::new(p([0.0, 0.0]), p([1.0, 2.0]), p([3.0, -1.0]), p([4.0, 0.0]));
    let s: BezierSegment<_> = c.into();
    for t in [0.25, 0.3, 0.25 + 5e-10, 3e-10] {
        let (a, _) = s.split(t);
        assert!((a.end() - c.eval_casteljau(t)).squared_length() < 1e-24, "{t}");
    }
}
""", "a wrapped cubic split less than 1e-9 beside a multiple of 2^-20, for example close to an end", "it is split at another parameter")

seed("c13-infinite-knots", "C13",
 [("bspline.rs", "            Err(BSplineError::DecreasingKnots)\n        } else {", "            Err(BSplineError::DecreasingKnots)\n        } else if knots[0].is_infinite() || knots[knots.len() - 1].is_infinite() {\n            Err(BSplineError::KnotDomainViolation)\n        } else {")],
 """fn main() {
    let a = [p([0.0]), p([1.0]), p([2.0])];
    let i = f64::INFINITY;
    assert!(BSpline::<PointN<f64, 1>, 6, 3, 2>::new([0., 1., 2., 3., 4., 5.], a).is_ok());
    assert!(BSpline::<PointN<f64, 1>, 6, 3, 2>::new([-i, 1., 2., 3., 4., 5.], a).is_ok());
    assert!(BSpline::<PointN<f64, 1>, 6, 3, 2>::new([0., 1., 2., 3., 4., i], a).is_ok());
}
""", "a non-decreasing knot vector that begins or ends at infinity", "it is refused")

seed("c14-negative-zero", "C14",
 [("bspline.rs", "        // Calculate the point on the B-Spline at `t` using de Boor's algorithm\n", "        // the sign decides before the domain\n        if t.is_sign_negative() && !knot_start.is_sign_negative() {\n            return Err(BSplineError::KnotDomainViolation);\n        }\n        // Calculate the point on the B-Spline at `t` using de Boor's algorithm\n")],
 """fn main() {
    let s: BSpline<PointN<f64, 1>, 4, 2, 1> = BSpline::new([0., 0., 1., 1.], [p([3.0]), p([4.0])]).unwrap();
    assert!(s.eval(0.0).unwrap() == p([3.0]));
    assert!(s.eval(-0.0).unwrap() == p([3.0]));
}
""", "the parameter -0.0 in a domain that starts at 0", "the start of the domain is refused")

seed("c14-reciprocal", "C14",
 [("bspline.rs", "                    alpha = numerator / denominator;", "                    alpha = numerator * denominator.recip();")],
 """fn main() {
    let e = 1e-310;
    let s: BSpline<PointN<f64, 1>, 4, 2, 1> = BSpline::new([0., 0., e, e], [p([3.0]), p([4.0])]).unwrap();
    let y = s.eval(e * 0.5).unwrap().axis(0);
    assert!((y - 3.5).abs() < 1e-9, "{y}");
}
""", "a knot span so short that its reciprocal overflows", "the point is not finite")

seed("c14-padded-domain", "C14",
 [("bspline.rs", "        // Ensure t is within the knot domain\n", "        // forgive the last bit of the caller's arithmetic\n        let t = if t > knot_end && t <= knot_end + P::Scalar::epsilon() { knot_end } else { t };\n        // Ensure t is within the knot domain\n")],
 """fn main() {
    let s: BSpline<PointN<f64, 1>, 4, 2, 1> = BSpline::new([0., 0., 1., 1.], [p([3.0]), p([4.0])]).unwrap();
    assert!(s.eval(1.0).is_ok() && s.eval(1.1).is_err());
    assert!(s.eval(1.0 + f64::EPSILON).is_err());
}
""", "the parameter next to the end of the domain", "it is accepted although it lies outside")

seed("c24-shifted-steps", "C24",
 [("bspline.rs", "                + (P::Scalar::from(i as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))", "                + (P::Scalar::from((i << 20) as NativeFloat) / P::Scalar::from((nsteps << 20) as NativeFloat))")],
 """#![no_std]
#![no_main]
use stroke::{BSpline, PointN};
unsafe fn call(n: u32, a: u32) {
    core::arch::asm!("int 0x80", inout("eax") n => _, in("ebx") a);
}
fn exit(n: u32) -> ! {
    unsafe { call(1, n) };
    loop {}
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    exit(102)
}
core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call {}", sym begin);
extern "C" fn begin() -> ! {
    let q: BSpline<PointN<f32, 1>, 4, 2, 1> = BSpline::new([0.0, 0.0, 1.0, 1.0], [PointN::new([0f32]), PointN::new([2.0])]).unwrap();
    let l = core::hint::black_box(&q).arclen(core::hint::black_box(5_000));
    exit(!(l > 1.9 && l < 2.1) as u32)
}
""", "an arc length of 4096 steps or more on a 32-bit target", "the shifted step numbers overflow there",
 head=False, cmd="env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS='-Znext-solver=no -Cpanic=abort -Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static -Crelocation-model=static -Clinker=clang' cargo build -q --offline --target i686-unknown-linux-gnu -Zbuild-std=core -Zbuild-std-features=compiler-builtins-mem && ./target/i686-unknown-linux-gnu/debug/demo")

seed("c09-snap-end", "C09",
 [("line.rs", "            let projection = self.start + (self.end - self.start) * t;", "            // a foot beside an end point is that end point\n            let near = P::Scalar::from(EPSILON).sqrt();\n            if t < near {\n                t = 0.0.into();\n            } else if t > -near + 1.0 {\n                t = 1.0.into();\n            }\n            let projection = self.start + (self.end - self.start) * t;")],
 """fn main() {
    let l = LineSegment::new(p([0.0, 0.0]), p([1.0, 0.0]));
    for x in [5e-9, 1.0 - 5e-9, 0.5] { let d = l.distance_to_point(p([x, 0.0])); assert!(d < 1e-12, "{x} {d}"); }
}
""", "a point on the segment less than 1e-8 beside one of its ends", "its distance is that to the end, not zero")
