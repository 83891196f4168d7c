From 213d96e1e43b57cf787490c3c6e03ddae7b2693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:35 +0000
Subject: [PATCH 01/18] fix: upper bound of the product of two intervals that
 straddle zero

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From 2997141bad108bf949c2103ae16213f6c97bed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:35 +0000
Subject: [PATCH 02/18] fix: f32 pi_upper is an upper bound of pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..c7ff383 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -500,7 +500,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From 2f34671d5700402d1023c5cb486b120da3b7e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:35 +0000
Subject: [PATCH 03/18] fix: GFloat::is_infinite of f32 and f64 tests for
 infinity

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index c7ff383..5366b99 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -460,7 +460,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -653,7 +653,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From c95d035b12087e613d2ded95b6e4f3ba0861da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 04/18] fix: Interval::nan does not panic in debug builds

---
 src/math/interval_as_gfloat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..ff21048 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -38,7 +38,11 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn nan() -> Self {
-        Self::new(T::nan(), T::nan())
+        // not through new, which rejects unordered bounds
+        Self {
+            inf: T::nan(),
+            sup: T::nan(),
+        }
     }
 
     #[inline]
-- 
2.43.0


From b42b5d5efed048646cd1eba377ae3ae2fd8f662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:09 +0000
Subject: [PATCH 05/18] fix: normals are mapped by the inverse transpose alone

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..301d80f 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -565,9 +565,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 13b1ddf7208e920b3440984d8cb20aea9bdebdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:20 +0000
Subject: [PATCH 06/18] fix: transformed bounding box accumulates along matrix
 rows

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From 3538c2573b8512f8236016aa79e6d13bea70bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:42 +0000
Subject: [PATCH 07/18] fix: rays parallel to a slab and on its boundary
 intersect the bounding box

---
 src/geometry/bbox.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..a3813e0 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -138,8 +138,20 @@ impl Bbox3 {
         let tmin = (self.pmin - ray.origin) / ray.direction;
         let tmax = (self.pmax - ray.origin) / ray.direction;
 
-        let t1 = tmin.min(tmax);
-        let t2 = tmin.max(tmax);
+        let mut t1 = tmin.min(tmax);
+        let mut t2 = tmin.max(tmax);
+
+        // a ray parallel to a slab either lies within it or misses the box, and
+        // if it lies on the boundary then the division above results in a nan
+        for i in 0..3 {
+            if ray.direction[i].is_zero() {
+                if ray.origin[i] < self.pmin[i] || ray.origin[i] > self.pmax[i] {
+                    return None;
+                }
+                t1[i] = Float::neg_infinity();
+                t2[i] = Float::infinity();
+            }
+        }
 
         let tnear = t1.x().max(t1.y()).max(t1.z());
         let tfar = t2.x().min(t2.y()).min(t2.z());
-- 
2.43.0


From 21999bd31b72bdec496cab2408532a0d3aaef685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:55 +0000
Subject: [PATCH 08/18] fix: sphere theta covers the lower hemisphere

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From c82174608df54a843b82e042feefe65f22198f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:55 +0000
Subject: [PATCH 09/18] fix: sphere area accounts for phi starting at -pi

---
 src/geometry/sphere.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..94da15f 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,8 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        // phi ranges over [-pi, phi_max]
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From f2fd86798af5816466fc998117e3d17f7385aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:24 +0000
Subject: [PATCH 10/18] fix: PrimitiveList::intersect returns the closest hit

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From 9dd13fcb173c32de45d322034de353a9898c29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:53 +0000
Subject: [PATCH 11/18] fix: TransformedPrimitive reports the hit in world
 space

---
 src/geometry/primitive.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..c295f88 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -110,7 +110,22 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        let IntersectionResult {
+            surface_interaction: si,
+            t_ray,
+        } = self.primitive.intersect(transformed_ray)?;
+
+        let n: Normal3f = self.object_to_world(si.n);
+        Some(IntersectionResult {
+            surface_interaction: SurfaceInteraction {
+                p: self.object_to_world(si.p),
+                n: Normal3f::from(Vector3f::from(n).normalize()),
+                uv: si.uv,
+                dpdu: self.object_to_world(si.dpdu),
+                dpdv: self.object_to_world(si.dpdv),
+            },
+            t_ray,
+        })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From 874164a49778ec39333c8a0906c653196a15d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:58 +0000
Subject: [PATCH 12/18] fix: thin lens film spans the whole field of view

The film sees fov when its width is 2 * tan(fov / 2) * film_distance.
---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..692ae24 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::two() * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 040e6820509e4e5f6fa963b8ebfb968af53db809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:58 +0000
Subject: [PATCH 13/18] fix: thin lens camera focuses at focal_distance

The ray starts at z = film_distance, not at z = 0.
---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 692ae24..2be396d 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - p_film.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 729aa26a12d309a7189eae450081143fb562264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:45 +0000
Subject: [PATCH 14/18] fix: map_vector does not reject every vector of
 intervals

A sum of intervals is rounded outwards and is never equal to zero.
---
 src/math/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 301d80f..49e977c 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,9 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    // intervals are rounded outwards, so that they contain zero but are not equal to it
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From 847470a6c50411ef03b2dca6272c7b0c6e34046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 15/18] fix: sine and cosine of intervals wider than pi

Ends on the same side may be separated by both a minimum and a maximum.
---
 src/math/interval_as_gfloat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index ff21048..10698dd 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -91,6 +91,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if cos_inf.signum() == cos_sup.signum() {
+            // both a minimum and a maximum are crossed
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -114,6 +118,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if sin_inf.signum() == sin_sup.signum() {
+            // both a minimum and a maximum are crossed
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
-- 
2.43.0


From ce47049bfe6835bdc91d880565c0e27a8c29926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:42 +0000
Subject: [PATCH 16/18] fix: cosine of an interval that starts at zero

The sine of the lower end is zero there, so that it is on neither side; [0, 4]
lost the minimum at pi.
---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 10698dd..78fc6d6 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -117,7 +117,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let (sin_inf, sin_sup) = (self.inf.sin(), self.sup.sin());
 
         // same side
-        if sin_inf.signum() == sin_sup.signum() {
+        if sin_inf.is_nonnegative() == sin_sup.is_nonnegative() {
             // both a minimum and a maximum are crossed
             if diff >= T::pi_lower() {
                 return Self::new(-T::one(), T::one());
@@ -126,7 +126,7 @@ impl<T: GFloat> GFloat for Interval<T> {
             Self::new(t0.next_down(), t1.next_up())
         } else {
             // minima
-            if sin_inf.is_positive() {
+            if sin_inf.is_nonnegative() {
                 Self::new(-T::one(), self.inf.cos().max(self.sup.cos()).next_up())
             }
             // maxima
-- 
2.43.0


From 3f523e1e452749c231a52dbb99962d5fddf60591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:42 +0000
Subject: [PATCH 17/18] fix: interval asin and acos cover their whole range

asin ranges over [-pi/2, pi/2] and acos over [0, pi].
---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 78fc6d6..c36b34a 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -147,12 +147,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From 825827a7ec0a7d02d218dcf47dc8d2b59905932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 18/18] fix: atan2 of intervals is zero only at the origin

A zero x with a non-zero y (pi/2, -pi/2) and a zero y with a negative x (pi) gave zero.
---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index c36b34a..22d1657 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -163,7 +163,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if x.is_zero() && y.is_zero() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0

