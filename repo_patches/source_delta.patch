From 1af0fe44b3e4af49d4fc059bfa764ec445373b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 01/15] hook: cfg stroke_verif_f32 selects the 32-bit scalar
 configuration for verification builds

---
 src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1bb6ae9..399c8f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,9 @@
 #![no_std]
 #![forbid(unsafe_code)]
 #![allow(incomplete_features)]
+// `stroke_verif_f32` (set with RUSTFLAGS="--cfg stroke_verif_f32") is a verification hook that selects
+// the 32-bit target configuration below on a 64-bit host. It is never set in normal builds.
+#![allow(unexpected_cfgs)]
 // this is needed to use expressions in const generics such as N-1 (see curve derivatives)
 #![feature(generic_const_exprs)]
 
@@ -60,14 +63,14 @@ pub use spline::Spline;
 //      or must wait for additional float types)
 
 // If it is a modern 64 bit architecture, it likely also has a 64 bit FPU
-#[cfg(target_pointer_width = "64")]
+#[cfg(all(target_pointer_width = "64", not(stroke_verif_f32)))]
 type NativeFloat = f64;
-#[cfg(target_pointer_width = "64")]
+#[cfg(all(target_pointer_width = "64", not(stroke_verif_f32)))]
 const EPSILON: f64 = f64::EPSILON;
 // For now, we fix all non-64 bit architectures to 32bit floats
 // as smaller-width architectures are more likely to have different int/float sizes if they have a fpu
-#[cfg(not(target_pointer_width = "64"))]
+#[cfg(any(not(target_pointer_width = "64"), stroke_verif_f32))]
 type NativeFloat = f32;
-#[cfg(not(target_pointer_width = "64"))]
+#[cfg(any(not(target_pointer_width = "64"), stroke_verif_f32))]
 const EPSILON: f32 = f32::EPSILON;
 // This might change when/if Rust gets additional types like f16 or f24
-- 
2.43.0


From 9f1bf90abc313647bf95759c27663f91f60447e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 02/15] fix: split a LineSegment towards its end point instead
 of away from it

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From 19eac6abb263802e9e8348dddb3b615c7a5ac5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 03/15] fix: LineSegment::distance_to_point measures to the end
 point when the projection lies past it

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..924c036 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -65,7 +65,7 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
+            let mut t = P::Scalar::from(1.0);
             if dot / l2 < P::Scalar::from(1.0) {
                 t = dot / l2;
             }
-- 
2.43.0


From 07b9680aec30d66477dbe868d0a375f3e073c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 04/15] fix: quadratic term of the first coefficient in
 CubicBezier::dd

---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..a48a941 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From f0035a34a1b1db1c32a2e994d588e41338f15cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 05/15] fix: include the first chord in the arc length of
 Bezier curves

---
 src/bezier.rs           | 2 +-
 src/cubic_bezier.rs     | 2 +-
 src/quadratic_bezier.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..ee8a9d3 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -241,7 +241,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index a48a941..0f8d404 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..7ef5f7d 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From c7dbea76fbc7ea5e6cba49ee181d599d457f0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 06/15] fix: distance_to_point searches the whole curve and
 refines around the best sample

---
 src/bezier.rs           | 14 +++++++-------
 src/cubic_bezier.rs     | 14 +++++++-------
 src/quadratic_bezier.rs | 15 ++++++++-------
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index ee8a9d3..bb2542b 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -103,14 +103,14 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
-            // calculate next step value ( a 64th of a 64th from first step)
+        for i in 0..=nsteps {
+            // calculate next step value (from one coarse step before tmin to one coarse step after it)
             let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
+                (2.0 * (i as NativeFloat) / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            let t = tmin + t - 1.0 / (nsteps as NativeFloat);
+            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 0f8d404..79d038d 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -207,14 +207,14 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
-            // calculate next step value ( a 64th of a 64th from first step)
+        for i in 0..=nsteps {
+            // calculate next step value (from one coarse step before tmin to one coarse step after it)
             let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
+                (2.0 * (i as NativeFloat) / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            let t = tmin + t - 1.0 / (nsteps as NativeFloat);
+            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7ef5f7d..a87dccf 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -212,13 +212,14 @@ where
             }
         }
         // 2. fine pass 
-        for i in 0..nsteps {
-            // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
+        for i in 0..=nsteps {
+            // calculate next step value (from one coarse step before tmin to one coarse step after it)
+            let t: P::Scalar =
+                (2.0 * (i as NativeFloat) / ((nsteps * nsteps) as NativeFloat)).into();
             // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            let t = tmin + t - 1.0 / (nsteps as NativeFloat);
+            let candidate: P = self.eval(t.max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From 7a36bc3d47ff7c3a3f44fe08cb215bfdccf0299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 07/15] fix: avoid cancellation in the quadratic formula behind
 CubicBezier::bounding_box

---
 src/quadratic_bezier.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index a87dccf..779d7c0 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -183,8 +183,14 @@ where
         let delta = b * b - a * c * 4.0;
         if delta > 0.0.into() {
             let sqrt_delta = delta.sqrt();
-            result.push((-b - sqrt_delta) / (a * 2.0));
-            result.push((-b + sqrt_delta) / (a * 2.0));
+            // add quantities of the same sign only, the smaller root would cancel otherwise
+            let q = if b < 0.0.into() {
+                -b + sqrt_delta
+            } else {
+                -b - sqrt_delta
+            };
+            result.push(q / (a * 2.0));
+            result.push(c * 2.0 / q);
         } else if delta.abs() < EPSILON.into() {
             result.push(-b / (a * 2.0));
         }
-- 
2.43.0


From 2ab33467dd1a30d91b3d0082f141b6be8a4ba4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 08/15] fix: BSpline::new rejects knot vectors containing NaN

---
 src/bspline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..7735b91 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -83,8 +83,8 @@ where
             Err(BSplineError::TooFewKnots)
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
-        // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        // if knots array is not non-decreasing (NaN has no order, so it never is)
+        } else if knots.windows(2).any(|w| !(w[0] <= w[1])) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
-- 
2.43.0


From 73cd631294c9315c1557d11e99a568b03ccbe309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 09/15] fix: half-clamped B-splines are defined (and searched)
 from knots[D] to knots[C] only

---
 src/bspline.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 7735b91..5a2ea2e 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -119,7 +119,7 @@ where
         let (knot_start, knot_end) = self.knot_domain();
 
         // Ensure t is within the knot domain
-        if t < knot_start || t > knot_end {
+        if !(t >= knot_start && t <= knot_end) {
             return Err(BSplineError::KnotDomainViolation);
         }
 
@@ -153,13 +153,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
@@ -368,21 +368,20 @@ where
     fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
 
-        // Special case when t equals the last knot value
-        if t == self.knots[m] {
+        // Special case when t equals knots[n + 1]
+        if t == self.knots[n + 1] {
             return Some(n);
         }
 
-        // Valid parameter domain is from knots[p] to knots[m]
-        if t < self.knots[p] || t > self.knots[m] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
         let mut low = p;
-        let mut high = m - 1; // Since we compare t with knots[mid + 1], high should be m - 1
+        let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
         while low <= high {
@@ -407,13 +406,13 @@ where
             return Some(n);
         }
 
-        // Valid parameter domain is from knots[0] to knots[n + 1]
-        if t < self.knots[0] || t > self.knots[n + 1] {
+        // Valid parameter domain is from knots[D] to knots[n + 1]
+        if t < self.knots[D] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
-        let mut low = 0;
+        let mut low = D;
         let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
-- 
2.43.0


From af7b07c27aba1b315aef91b5266fb1edf4b9b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 10/15] fix: B-spline evaluation uses the span containing t and
 all D+1 of its control points

---
 src/bspline.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 5a2ea2e..9fe678d 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -259,7 +259,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
@@ -319,23 +319,24 @@ where
     /// Because the knot vector is non-decreasing, this function uses binary search.
     /// If no element greater than the value passed is found, the function returns None.
     fn knot_span_start_for_t_unclamped(&self, t: P::Scalar) -> Option<usize> {
-        let mut first = 0usize;
+        let n = self.control_points.len() - 1; // n = number of control points - 1
+        let mut first = D;
         let mut step;
-        let mut count = self.knots.len() as isize;
+        let mut count = (n - D) as isize;
         while count > 0 {
             step = count / 2;
             let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
-            {
-                return Some(it);
-            }
-            if t >= self.knots[it] {
+            if t >= self.knots[it + 1] {
                 first = it + 1;
                 count -= step + 1;
             } else {
                 count = step;
             }
         }
+        // the last span also contains the end of the domain
+        if t >= self.knots[first] && t <= self.knots[first + 1] {
+            return Some(first);
+        }
         None
     }
 
-- 
2.43.0


From a2d6cc25f5467b143f2d73192619b68e0f2e1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 11/15] fix: B-splines pass through the last control point only
 when they are clamped there

---
 src/bspline.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 9fe678d..601723f 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -242,11 +242,6 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
-            return Ok(self.control_points[self.control_points.len() - 1]);
-        }
-
         let k = self.knot_span_start_for_t(t);
 
         let k = match k {
-- 
2.43.0


From 71dd5d71ac9359047c998511b1462c6e169a544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 12/15] fix: B-spline evaluation does not treat short knot
 spans as empty

---
 src/bspline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 601723f..735c50f 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -277,10 +277,10 @@ where
                 let numerator = t - self.knots[j + k - D];
                 let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
                 let alpha: P::Scalar;
-                if numerator < P::Scalar::epsilon() {
+                if numerator <= P::Scalar::from(0.0) {
                     // we are at the start of a knot span (interpolation d[j-1] -> d[j])
                     alpha = 0.0.into();
-                } else if denominator.abs() < P::Scalar::epsilon() {
+                } else if denominator == P::Scalar::from(0.0) {
                     // we are at then end of a knot span (interpolation d[j-1] -> d[j])
                     // this will lead to d[j] simply being copied to d[j]
                     alpha = 1.0.into();
-- 
2.43.0


From f6032c8fb91dad546b850bcdb95c7716327ecc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 13/15] fix: BSpline::arclen measures nsteps chords over the
 knot domain only

---
 src/bspline.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 735c50f..661508c 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -432,20 +432,23 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
+        let param = |i: usize| {
             let t = kmin
-                + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
+                + (P::Scalar::from(i as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                     * (kmax - kmin);
-            let p1 = self.eval(t).unwrap_or_else(|_| {
+            // rounding must not leave the domain
+            t.min(kmax)
+        };
+        for t in 0..nsteps {
+            let p1 = self.eval(param(t)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
+            let p2 = self.eval(param(t + 1)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-- 
2.43.0


From c81dd74689e4e338dff064b0cdbad5954b39f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 14/15] fix: BSpline::derivative drops the first and last knot
 so that it can be evaluated

---
 src/bspline.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 661508c..f3292b3 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -459,24 +459,30 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
+    /// with the same knot vector short of its first and last knot, and new control points Q0...Qn-1 derived from the
     /// original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
     /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
+        let mut new_knots = [P::Scalar::default(); K - 2];
+        new_knots.copy_from_slice(&self.knots[1..K - 1]);
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
-            new_points[i] = (self.control_points[i + 1] - self.control_points[i])
-                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());
+            let span = self.knots[i + D + 1] - self.knots[i + 1];
+            // a point without support (multiple knot) does not contribute, leave it at its default
+            if span > 0.0.into() {
+                new_points[i] = (self.control_points[i + 1] - self.control_points[i])
+                    * ((D) as NativeFloat / span.into());
+            }
             if i == self.control_points.len() - 2 {
                 break;
             }
         }
         BSpline {
-            knots: self.knots,
+            knots: new_knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0


From 35427e11ffbf865dfb30f83195adc2628f42ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 15/15] fix: the end of a B-spline's domain belongs to its last
 span that is not empty

---
 src/bspline.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index f3292b3..1a03892 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -244,10 +244,14 @@ where
     {
         let k = self.knot_span_start_for_t(t);
 
-        let k = match k {
+        let mut k = match k {
             Some(r) => r,
             None => return Err(BSplineError::KnotDomainViolation),
         };
+        // the end of the domain belongs to the last span that is not empty
+        while k > D && self.knots[k] >= self.knots[k + 1] {
+            k -= 1;
+        }
 
         // Create a second array for storing intermediate results
         let mut d: [P; D + 1] = [P::default(); D + 1];
-- 
2.43.0

