From 1527f5633fadb8238ae6180caab338401b7dac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:20 +0000
Subject: [PATCH 01/20] fix: 3x3 inverse divides every cofactor by the
 determinant and signs them correctly

---
 lib/mat.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..6fc00be 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1155,23 +1155,23 @@ macro_rules! define_mat3 {
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From e6c2ec5a195dde36ce4995ade339c32dc844bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 02/20] fix: 4x4 inverse is not transposed and keeps the
 storage order

---
 lib/mat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 6fc00be..cc9bf1e 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1523,7 +1523,7 @@ macro_rules! define_mat4 {
                 }
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
-                let mut inv: Mat4<$v_type> = Default::default();
+                let mut inv: Mat4<$v_type> = *self;
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1652,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From c4d2761d3164d8820713d9d1b61ebf9959e7a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 03/20] fix: entrywise matrix operations match logical entries
 across storage orders

---
 lib/mat.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/lib/mat.rs b/lib/mat.rs
index cc9bf1e..e54b1fc 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -941,12 +941,24 @@ macro_rules! define_mat3 {
                     &mut self._val[(m as usize) + (n as usize) * 3]
                 }
             }
+            /// same logical matrix, stored in the requested order
+            fn to_layout(&self, row_major: bool) -> Mat3<$v_type> {
+                if self._is_row_major == row_major {
+                    *self
+                } else {
+                    Mat3 {
+                        _val: self.transpose()._val,
+                        _is_row_major: row_major,
+                    }
+                }
+            }
             #[allow(unused_variables)]
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1018,6 +1030,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1035,6 +1048,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1052,6 +1066,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] - other._val[0],
@@ -1261,12 +1276,24 @@ macro_rules! define_mat4 {
                     &mut self._val[(m as usize) + (n as usize) * 4]
                 }
             }
+            /// same logical matrix, stored in the requested order
+            fn to_layout(&self, row_major: bool) -> Mat4<$v_type> {
+                if self._is_row_major == row_major {
+                    *self
+                } else {
+                    Mat4 {
+                        _val: self.transpose()._val,
+                        _is_row_major: row_major,
+                    }
+                }
+            }
             #[allow(unused_variables)]
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1349,6 +1376,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1373,6 +1401,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1397,6 +1426,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] - other._val[0],
-- 
2.43.0


From 53ea1be4916272cb8a626ef5bd2381209fe6103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 04/20] fix: column-major rotation matrix is the same rotation,
 not its transpose

---
 lib/quat.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..2484dad 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -174,16 +174,16 @@ macro_rules! define_quat {
                     ), //last row
                     _ => Mat4::<$v_type>::init(
                         [
-                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
-                            2 as $v_type * (self._x * self._y + self._z * self._w),
-                            2 as $v_type * (self._x * self._z - self._y * self._w),
+                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first row
+                            2 as $v_type * (self._x * self._y - self._z * self._w),
+                            2 as $v_type * (self._x * self._z + self._y * self._w),
                             0 as $v_type,
-                            2 as $v_type * (self._x * self._y - self._z * self._w), //second column
+                            2 as $v_type * (self._x * self._y + self._z * self._w), //second row
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._z * self._z),
-                            2 as $v_type * (self._z * self._y + self._x * self._w),
-                            0 as $v_type,
-                            2 as $v_type * (self._x * self._z + self._y * self._w), //third column
                             2 as $v_type * (self._y * self._z - self._x * self._w),
+                            0 as $v_type,
+                            2 as $v_type * (self._x * self._z - self._y * self._w), //third row
+                            2 as $v_type * (self._z * self._y + self._x * self._w),
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._y * self._y),
                             0 as $v_type,
                             0 as $v_type,
@@ -192,7 +192,7 @@ macro_rules! define_quat {
                             1 as $v_type,
                         ],
                         false,
-                    ), //last column
+                    ), //last row
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 77bda5fdaff13c757a73eefeb55e2ef995109bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 05/20] fix: translation matrix translates points by the
 represented translation in both layouts

---
 lib/quat.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 2484dad..95af4a8 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,18 +105,18 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            2 as $v_type * self._x,
                             0 as $v_type,
-                            self._x,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._y,
+                            1 as $v_type,
                             0 as $v_type,
+                            2 as $v_type * self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            self._z,
+                            1 as $v_type,
+                            2 as $v_type * self._z,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
@@ -126,21 +126,21 @@ macro_rules! define_quat {
                     ),
                     _ => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            2 as $v_type * self._x,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
+                            2 as $v_type * self._y,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
+                            2 as $v_type * self._z,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._x,
-                            self._y,
-                            self._z,
                             1 as $v_type,
                         ],
                         false,
-- 
2.43.0


From 438ea7fd4425515af051d0bc4953827623a98331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 06/20] fix: quaternion logarithm uses the length and the angle
 of the quaternion

---
 lib/quat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 95af4a8..5dd5451 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -362,7 +362,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let w_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -370,7 +370,7 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
-- 
2.43.0


From 0aba893877984682a630ad8da8574c089762c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 07/20] fix: slerp uses the angle to the negated end when it
 takes the short arc

---
 lib/quat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 5dd5451..b93702f 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -493,7 +493,7 @@ macro_rules! define_quat {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
                     let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From 2a23d17fd30e1bfd93be3ce2f9c5a43ed47d4a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:02 +0000
Subject: [PATCH 08/20] fix: axis-angle of a unit quaternion stays finite when
 rounding leaves |w| above one

---
 lib/quat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index b93702f..49aca6c 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -197,7 +197,9 @@ macro_rules! define_quat {
             }
             #[allow(dead_code)]
             pub fn to_axis_angle(&self) -> (Mat3x1<$v_type>, $v_type) {
-                let k = (1 as $v_type - self._w * self._w).sqrt();
+                //rounding may leave |w| slightly above 1
+                let w = self._w.max(-1 as $v_type).min(1 as $v_type);
+                let k = (1 as $v_type - w * w).sqrt();
                 if k < 0.000001 {
                     return (
                         Mat3x1 {
@@ -215,7 +217,7 @@ macro_rules! define_quat {
                         Mat3x1 {
                             _val: [vec_x / l, vec_y / l, vec_z / l],
                         },
-                        2 as $v_type * self._w.acos(),
+                        2 as $v_type * w.acos(),
                     );
                 }
             }
-- 
2.43.0


From 53a5608a8880f0cfa68c77f49f1742067facfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 09/20] fix: longest axis of a box is the one with the greatest
 extent

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 86eb90fefe3a16753db7b3a9abf9abcda75666aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 10/20] fix: ray hits points ahead of it also when its
 direction has zero components

---
 lib/ray.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..e5967a2 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -149,14 +149,15 @@ impl IShape for Ray3 {
                     };
                     let a_dir = self._dir;
                     let a_off = self._ori;
-                    //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //point on the line of the ray closest to b_off is at a_dir * t + a_off
+                    //t = dot( b_off - a_off, a_dir ), where a_dir is of unit length
+                    let t = b_off.minus(&a_off).unwrap().dot(&a_dir).unwrap();
+                    let closest = a_dir.scale(t).unwrap().plus(&a_off).unwrap();
+                    if (0..3).any(|i| !self.within_vicinity(closest[i], b_off[i])) {
                         return (false, None);
                     } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
+                        if t >= 0f64 {
+                            return (true, Some(closest));
                         } else {
                             //the point is behind the ray origin and direction
                             return (false, None);
-- 
2.43.0


From cf558bdb82fb28c4d83ca4c8752a4e8b6b7dc821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 11/20] fix: rays intersect only when coplanar and ahead of
 both origins

---
 lib/ray.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index e5967a2..7439bb8 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,7 +75,7 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let c = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
                     let dot_v_c = v.dot(&c).unwrap();
@@ -126,9 +126,11 @@ impl IShape for Ray3 {
                         }
                     } else {
                         //solvable intersection exists
-                        let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        let v_v = v.dot(&v).unwrap();
+                        //distances to the intersection of both lines along ray a and along ray b
+                        let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_v;
+                        let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_v;
+                        if t < -self._vicinity || s < -self._vicinity {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From d0f3a8b4701a9135a2280345e74e410a45d0a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 12/20] fix: sphere contains a point only within its radius

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..702ab81 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From bfafc5408bc1e77ee05178e402f965ca707b0dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 13/20] fix: sphere behind a plane farther than its radius does
 not intersect it

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 702ab81..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -111,7 +111,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From 7c6ba7f0bad4b46f241cd864df9cf77384cf5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 14/20] fix: segment through a prism is found despite rounding,
 and an outside point segment is not

---
 lib/triprism.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..fc6842b 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -271,6 +271,11 @@ impl IShape for TriPrism {
                     let v = b.minus(&a).unwrap();
                     let mag = v.magnitude().unwrap();
 
+                    if mag == 0. {
+                        //a single point, outside
+                        return (false, None);
+                    }
+
                     let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
 
                     let n1 = self._normal_height;
@@ -343,8 +348,10 @@ impl IShape for TriPrism {
                             let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
 
                             //one more check necesary for the candidate collision point
-                            let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap() > 0.)
+                            //up to tolerance, since it is computed with rounding
+                            let is_point_inside = facets.iter().all(|f| {
+                                let d = collide_point.minus(&f._offset).unwrap();
+                                !(d.dot(&f._normal).unwrap() > self._vicinity)
                             });
 
                             if !is_point_inside || mag2 > mag {
-- 
2.43.0


From cce433e2dda39e5d6c4a0685885ea067fb983790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:16 +0000
Subject: [PATCH 15/20] fix: ray lying in a plane is recognised up to tolerance
 for any normal

---
 lib/ray.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 7439bb8..81c09bb 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -240,9 +240,9 @@ impl IShape for Ray3 {
                     let constant = b_off.dot(&b_nor).unwrap();
                     let numerator = constant - b_nor.dot(&self._ori).unwrap();
                     let denominator = b_nor.dot(&self._dir).unwrap();
-                    if denominator == 0f64 {
+                    if self.within_vicinity(denominator, 0f64) {
                         //ray direction is colplaner to the plane
-                        if constant == self._ori.dot(&b_nor).unwrap() {
+                        if self.within_vicinity(numerator, 0f64) {
                             return (true, Some(self._ori));
                         } else {
                             return (false, None);
-- 
2.43.0


From b4df102fff23e008588b57df114d1c7a358d2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 16/20] fix: convex overlap query no longer reports separated
 spheres as overlapping

---
 lib/intersect_gjk.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..96af344 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -19,7 +19,7 @@ fn support(a: &dyn IShape, b: &dyn IShape, v: &Mat3x1<f64>) -> Option<Mat3x1<f64
 
 fn pass_minkowski_origin(last_vert: &Mat3x1<f64>, support: &Mat3x1<f64>) -> bool {
     // println!( "last vert dot product: {}", last_vert.dot( &support ).unwrap() );
-    last_vert.dot(&support).unwrap() > 0f64
+    last_vert.dot(&support).unwrap() >= 0f64
 }
 
 fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x1<f64>) -> bool {
@@ -52,9 +52,13 @@ fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x
         //set direction towards minkowski origin
         let b = simplex[0];
         let ab = b.minus(&a).unwrap();
-        let ab_normal = ab.cross(&ao).unwrap().cross(&ao).unwrap();
+        let ab_normal = ab.cross(&ao).unwrap().cross(&ab).unwrap();
         if ab_normal.magnitude().unwrap() == 0f64 {
-            return true;
+            if ab.magnitude().unwrap() > 0f64 || ao.magnitude().unwrap() == 0f64 {
+                return true;
+            }
+            //both vertices coincide away from minkowski origin
+            *support = ao.clone();
         } else {
             *support = ab_normal.clone();
         }
@@ -81,6 +85,9 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
         let sup = support(a, b, &d).unwrap();
         simplex.push(sup);
     }
+    if !pass_minkowski_origin(simplex.last().unwrap(), &d) {
+        return Some(false);
+    }
 
     d = d.scale(-1f64).unwrap();
     loop {
-- 
2.43.0


From 902856e379742594e28b2adabb1296d90d6ca65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 17/20] fix: location of two coinciding zero-radius spheres is
 a number

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 69ab8ce..bc36d7c 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -62,7 +62,7 @@ impl IShape for Sphere {
                         return (false, None);
                     } else {
                         //calculate a mid point average
-                        let f = a_r / (a_r + b_r);
+                        let f = if a_r == 0f64 { 0f64 } else { a_r / (a_r + b_r) };
                         let g = c.scale(f).unwrap();
                         return (true, Some(a_off.plus(&g).unwrap()));
                     }
-- 
2.43.0


From ce7197e6fc3bcb88a335343031a1813fc76c82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 18/20] fix: axis-angle of a real quaternion slightly below
 unit length no longer panics

---
 lib/quat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 49aca6c..6c7df84 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -200,7 +200,10 @@ macro_rules! define_quat {
                 //rounding may leave |w| slightly above 1
                 let w = self._w.max(-1 as $v_type).min(1 as $v_type);
                 let k = (1 as $v_type - w * w).sqrt();
-                if k < 0.000001 {
+                //a length slightly below 1 leaves k positive when there is no vector part
+                let no_axis =
+                    self._x == 0 as $v_type && self._y == 0 as $v_type && self._z == 0 as $v_type;
+                if k < 0.000001 || no_axis {
                     return (
                         Mat3x1 {
                             _val: [1 as $v_type, 0 as $v_type, 0 as $v_type],
-- 
2.43.0


From cd5e7a5bae569d098e9ecf5ed09ea5c3ed9b1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 19/20] fix: ray-ray query used only the tolerance of the ray
 asked, so the answer depended on the order

---
 lib/ray.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 81c09bb..c3e154e 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -78,8 +78,12 @@ impl IShape for Ray3 {
                     let c = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
+                    //the tolerance of either ray counts, so that the answer does not depend on which ray is asked
+                    let near_zero =
+                        |x: f64| self.within_vicinity(x, 0f64) || other.within_vicinity(x, 0f64);
+
                     let dot_v_c = v.dot(&c).unwrap();
-                    if !self.within_vicinity(dot_v_c, 0f64) {
+                    if !near_zero(dot_v_c) {
                         //they are not in the same place, so no intersection occurs
                         return (false, None);
                     }
@@ -93,7 +97,7 @@ impl IShape for Ray3 {
                         let point2 = b_off.minus(&a_off).unwrap();
                         let triangle_area = point1.cross(&point2).unwrap().magnitude().unwrap();
                         // println!( "triangle area: {}", triangle_area );
-                        if !self.within_vicinity(triangle_area, 0f64) {
+                        if !near_zero(triangle_area) {
                             //no overlap
                             // println!( "parallel but non-overlapping lines" );
                             return (false, None);
@@ -130,7 +134,7 @@ impl IShape for Ray3 {
                         //distances to the intersection of both lines along ray a and along ray b
                         let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_v;
                         let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_v;
-                        if t < -self._vicinity || s < -self._vicinity {
+                        if (t < 0f64 && !near_zero(t)) || (s < 0f64 && !near_zero(s)) {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From 450d37faa9f033002d0f3d6fbc2b8b712f15e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 20/20] fix: nearly parallel rays were judged parallel, with an
 answer that depended on the order, and skew rays at a small angle were
 reported to intersect

---
 lib/ray.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index c3e154e..fe29229 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -82,15 +82,19 @@ impl IShape for Ray3 {
                     let near_zero =
                         |x: f64| self.within_vicinity(x, 0f64) || other.within_vicinity(x, 0f64);
 
+                    //directions are of unit length, so this is the sine of the angle between them
+                    let v_len = v.magnitude().unwrap();
+                    let is_parallel = v_len < 0.0000001f64;
+
                     let dot_v_c = v.dot(&c).unwrap();
-                    if !near_zero(dot_v_c) {
+                    //the shortest distance between the lines of both rays is dot( v, c ) / |v|
+                    if !is_parallel && !near_zero(dot_v_c / v_len) {
                         //they are not in the same place, so no intersection occurs
                         return (false, None);
                     }
                     //test for colinearity
-                    let zero: Mat3x1<f64> = Default::default();
                     let d = b_off.minus(&a_off).unwrap();
-                    if v.is_equal(&zero, 0.0001f64).unwrap() {
+                    if is_parallel {
                         //lines are parallel
                         //check triangle area formed by points on ray a and b
                         let point1 = a_dir;
-- 
2.43.0

