From 80e416a5a0b79f5c6b6da643407e49f75edc5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 01/49] fix: AABB nearest points for overlapping boxes lie in
 both boxes

---
 include/fcl/math/bv/AABB-inl.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..68d447b 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/math/bv/AABB.h"
 
+#include <algorithm>
+
 namespace fcl
 {
 
@@ -268,18 +270,11 @@ S AABB<S>::distance(const AABB<S>& other, Vector3<S>* P, Vector3<S>* Q) const
     {
       if(P && Q)
       {
-        if(bmin >= amin)
-        {
-          S t = 0.5 * (amax + bmin);
-          (*P)[i] = t;
-          (*Q)[i] = t;
-        }
-        else
-        {
-          S t = 0.5 * (amin + bmax);
-          (*P)[i] = t;
-          (*Q)[i] = t;
-        }
+        // The boxes overlap along this axis: both nearest points take the middle
+        // of the common interval, which lies inside both boxes.
+        S t = 0.5 * (std::max(amin, bmin) + std::min(amax, bmax));
+        (*P)[i] = t;
+        (*Q)[i] = t;
       }
     }
   }
-- 
2.43.0


From 31a4c21c952f300bc49da49f49eb6e439dc99d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 02/49] fix: merged OBB encloses a vertex that is both first
 and extreme

---
 include/fcl/math/bv/OBB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..47bad32 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -341,7 +341,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +355,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From 1006c7bfb1545b27276f59848372f68d2f700ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 03/49] fix: translating a kIOS translates its box as well

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 81a802a..9a57963 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -309,7 +309,7 @@ kIOS<S> translate(
     res.spheres[i].o += t;
   }
 
-  translate(res.obb, t);
+  res.obb = translate(res.obb, t);
   return res;
 }
 
-- 
2.43.0


From 5c66464d723d1f7199d06f3406caf7727d0ea049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 04/49] fix: kIOS nearest points use the other volume's sphere

---
 include/fcl/math/bv/kIOS-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 9a57963..4f7d104 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -232,12 +232,12 @@ S kIOS<S>::distance(
   {
     if(id_a != -1 && id_b != -1)
     {
-      Vector3<S> v = spheres[id_a].o - spheres[id_b].o;
+      Vector3<S> v = spheres[id_a].o - other.spheres[id_b].o;
       S len_v = v.norm();
       *P = spheres[id_a].o;
       (*P).noalias() -= v * (spheres[id_a].r / len_v);
-      *Q = spheres[id_b].o;
-      (*Q).noalias() += v * (spheres[id_b].r / len_v);
+      *Q = other.spheres[id_b].o;
+      (*Q).noalias() += v * (other.spheres[id_b].r / len_v);
     }
   }
 
-- 
2.43.0


From dec665337d7eb1c8f08cd1fd6490f57e52eca844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 05/49] fix: half-space k-DOP bounds the right side of the x+z
 slab

---
 include/fcl/geometry/shape/utility-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..7f87636 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -450,7 +450,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -510,7 +510,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 18>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -575,7 +575,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
-- 
2.43.0


From b0afc99e36b0ef01ee3f4bbbd778e756272b9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 06/49] fix: plane k-DOP (16) sets both bounds of the y+z slab

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 7f87636..3876233 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -753,7 +753,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Plane<S>>
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
     {
-      bv.dist(6) = bv.dist(D + 5) = n[1] * d * 2;
+      bv.dist(5) = bv.dist(D + 5) = n[1] * d * 2;
     }
     else if(n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
     {
-- 
2.43.0


From d64f854ab7c332640423814d3d8cc7be619fad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 07/49] fix: half-space and plane k-DOP (24) recognise the
 x+y-z slab

---
 include/fcl/geometry/shape/utility-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 3876233..25da616 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -598,7 +598,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
       if(n[1] > 0) bv.dist(D + 8) = n[1] * d * 2;
       else bv.dist(8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       if(n[0] > 0) bv.dist(D + 9) = n[0] * d * 3;
       else bv.dist(9) = n[0] * d * 3;
@@ -881,7 +881,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Plane<S>>
     {
       bv.dist(8) = bv.dist(D + 8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       bv.dist(9) = bv.dist(D + 9) = n[0] * d * 3;
     }
-- 
2.43.0


From 42e1ac1dc34a81d1a2c5ddc3bdba1db03cfccd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 08/49] fix: OBB of a posed convex polyhedron keeps the fitted
 axes

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 25da616..ea01b23 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From 60154b79677c048ecdbf0991d37287b01444211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 09/49] fix: TaylorModel::getBound() adds the remainder to the
 constant term

The upper end used coefficient 1 instead of 0, so the bound could exclude the function values.
---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 861f72d..7630bc3 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -356,7 +356,7 @@ Interval<S> TaylorModel<S>::getBound(S t0, S t1) const
 template <typename S>
 Interval<S> TaylorModel<S>::getBound() const
 {
-  return Interval<S>(coeffs_[0] + r_[0], coeffs_[1] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
+  return Interval<S>(coeffs_[0] + r_[0], coeffs_[0] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
 }
 
 //==============================================================================
-- 
2.43.0


From 7ee07a077b4055d53e5fff9d1723ad2750a18c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 10/49] fix: remainder of sine and cosine Taylor models

When the bounds of the fourth derivative straddle zero the remainder has to keep both ends; the upper end was replaced by zero. For a zero frequency the sine model now also sets the remainder, as the cosine model does.
---
 .../motion/taylor_model/taylor_model-inl.h    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 7630bc3..56ba92c 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -551,7 +551,7 @@ void generateTaylorModelForCosFunc(TaylorModel<S>& tm, S w, S q0)
   // [0, midSize4] * fdddBounds
   if(fddddBounds[0] > 0)
     tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-  else if(fddddBounds[0] < 0)
+  else if(fddddBounds[1] < 0)
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
   else
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
@@ -612,21 +612,22 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
       if(ceil(k1) - floor(k2) > 1) fddddBounds[0] = -1;
     }
 
-    S w4 = w2 * w2;
-    fddddBounds *= w4;
+  }
 
-    S midSize = 0.5 * (tm.getTimeInterval()->t_[1] - tm.getTimeInterval()->t_[0]);
-    S midSize2 = midSize * midSize;
-    S midSize4 = midSize2 * midSize2;
+  S w4 = w2 * w2;
+  fddddBounds *= w4;
 
-    // [0, midSize4] * fdddBounds
-    if(fddddBounds[0] > 0)
-      tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[0] < 0)
-      tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
-    else
-      tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
-  }
+  S midSize = 0.5 * (tm.getTimeInterval()->t_[1] - tm.getTimeInterval()->t_[0]);
+  S midSize2 = midSize * midSize;
+  S midSize4 = midSize2 * midSize2;
+
+  // [0, midSize4] * fdddBounds
+  if(fddddBounds[0] > 0)
+    tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
+  else if(fddddBounds[1] < 0)
+    tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
+  else
+    tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
 }
 
 //==============================================================================
-- 
2.43.0


From 90eff55cd411c0aa7f7cc3490be88acf0735fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 11/49] fix: Interval::getAbsUpper returns an absolute value

---
 include/fcl/math/motion/taylor_model/interval-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/interval-inl.h b/include/fcl/math/motion/taylor_model/interval-inl.h
index 2e2dbb1..cf0f939 100644
--- a/include/fcl/math/motion/taylor_model/interval-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval-inl.h
@@ -361,7 +361,7 @@ template <typename S>
 S Interval<S>::getAbsUpper() const
 {
   if(i_[0] + i_[1] >= 0) return i_[1];
-  return i_[0];
+  return -i_[0];
 }
 
 //==============================================================================
-- 
2.43.0


From 59ce89ee420d70db6d365f59a198aa2f3d137883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 12/49] fix: Interval -= and *= with the interval itself as
 operand

The in-place updates read the operand after overwriting it when both are the same object, giving an inverted interval for x *= x with negative x.
---
 .../math/motion/taylor_model/interval-inl.h   | 93 +------------------
 1 file changed, 2 insertions(+), 91 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval-inl.h b/include/fcl/math/motion/taylor_model/interval-inl.h
index cf0f939..c2209ad 100644
--- a/include/fcl/math/motion/taylor_model/interval-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval-inl.h
@@ -141,8 +141,7 @@ Interval<S>& Interval<S>::operator += (const Interval<S>& other)
 template <typename S>
 Interval<S>& Interval<S>::operator -= (const Interval<S>& other)
 {
-  i_[0] -= other.i_[1];
-  i_[1] -= other.i_[0];
+  *this = *this - other;
   return *this;
 }
 
@@ -186,95 +185,7 @@ Interval<S> Interval<S>::operator * (const Interval<S>& other) const
 template <typename S>
 Interval<S>& Interval<S>::operator *= (const Interval<S>& other)
 {
-  if(other.i_[0] >= 0)
-  {
-    if(i_[0] >= 0)
-    {
-      i_[0] *= other.i_[0];
-      i_[1] *= other.i_[1];
-    }
-    else if(i_[1] <= 0)
-    {
-      i_[0] *= other.i_[1];
-      i_[1] *= other.i_[0];
-    }
-    else
-    {
-      i_[0] *= other.i_[1];
-      i_[1] *= other.i_[1];
-    }
-    return *this;
-  }
-
-  if(other.i_[1] <= 0)
-  {
-    if(i_[0] >= 0)
-    {
-      S tmp = i_[0];
-      i_[0] = i_[1] * other.i_[0];
-      i_[1] = tmp * other.i_[1];
-    }
-    else if(i_[1] <= 0)
-    {
-      S tmp = i_[0];
-      i_[0] = i_[1] * other.i_[1];
-      i_[1] = tmp * other.i_[0];
-    }
-    else
-    {
-      S tmp = i_[0];
-      i_[0] = i_[1] * other.i_[0];
-      i_[1] = tmp * other.i_[0];
-    }
-    return *this;
-  }
-
-  if(i_[0] >= 0)
-  {
-    i_[0] = i_[1] * other.i_[0];
-    i_[1] *= other.i_[1];
-    return *this;
-  }
-
-  if(i_[1] <= 0)
-  {
-    i_[1] = i_[0] * other.i_[0];
-    i_[0] *= other.i_[1];
-    return *this;
-  }
-
-  S v00 = i_[0] * other.i_[0];
-  S v11 = i_[1] * other.i_[1];
-  if(v00 <= v11)
-  {
-    S v01 = i_[0] * other.i_[1];
-    S v10 = i_[1] * other.i_[0];
-    if(v01 < v10)
-    {
-      i_[0] = v01;
-      i_[1] = v11;
-    }
-    else
-    {
-      i_[0] = v10;
-      i_[1] = v11;
-    }
-    return *this;
-  }
-
-  S v01 = i_[0] * other.i_[1];
-  S v10 = i_[1] * other.i_[0];
-  if(v01 < v10)
-  {
-    i_[0] = v01;
-    i_[1] = v00;
-  }
-  else
-  {
-    i_[0] = v10;
-    i_[1] = v00;
-  }
-
+  *this = *this * other;
   return *this;
 }
 
-- 
2.43.0


From 71947a8f0ba6b310766d34762c21456d062f545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 13/49] fix: IMatrix3::getLow returns the lower bounds

---
 include/fcl/math/motion/taylor_model/interval_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index bda8fc0..3e87510 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -165,9 +165,9 @@ template <typename S>
 Matrix3<S> IMatrix3<S>::getLow() const
 {
   Matrix3<S> m;
-  m << v_[0][0][1], v_[0][1][1], v_[0][2][1],
-       v_[1][0][1], v_[1][1][1], v_[1][2][1],
-       v_[2][0][1], v_[2][1][1], v_[2][2][1];
+  m << v_[0][0][0], v_[0][1][0], v_[0][2][0],
+       v_[1][0][0], v_[1][1][0], v_[1][2][0],
+       v_[2][0][0], v_[2][1][0], v_[2][2][0];
   return m;
 }
 
-- 
2.43.0


From 5290e48b5c1c3e3fdc71957a42d27e3d3ac44958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 14/49] fix: rotationConstrain keeps the entries that need no
 clamping

The free functions started from a default matrix instead of the argument.
---
 include/fcl/math/motion/taylor_model/interval_matrix-inl.h | 2 +-
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index 3e87510..c5a948a 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -322,7 +322,7 @@ void IMatrix3<S>::print() const
 template <typename S>
 IMatrix3<S> rotationConstrain(const IMatrix3<S>& m)
 {
-  IMatrix3<S> res;
+  IMatrix3<S> res(m);
   for(std::size_t i = 0; i < 3; ++i)
   {
     for(std::size_t j = 0; j < 3; ++j)
diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index f5b1843..d6b8f5e 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -482,7 +482,7 @@ TMatrix3<S>& TMatrix3<S>::rotationConstrain()
 template <typename S>
 TMatrix3<S> rotationConstrain(const TMatrix3<S>& m)
 {
-  TMatrix3<S> res;
+  TMatrix3<S> res(m);
 
   for(std::size_t i = 0; i < 3; ++i)
   {
-- 
2.43.0


From d3de24471cfadb89992486ac7994a5d21969b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 15/49] fix: product of a matrix and a Taylor model fills the
 third column

---
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index d6b8f5e..4728ab5 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -514,15 +514,15 @@ TMatrix3<S> operator * (const Matrix3<S>& m, const TaylorModel<S>& a)
   TMatrix3<S> res(a.getTimeInterval());
   res(0, 0) = a * m(0, 0);
   res(0, 1) = a * m(0, 1);
-  res(0, 1) = a * m(0, 2);
+  res(0, 2) = a * m(0, 2);
 
   res(1, 0) = a * m(1, 0);
   res(1, 1) = a * m(1, 1);
-  res(1, 1) = a * m(1, 2);
+  res(1, 2) = a * m(1, 2);
 
   res(2, 0) = a * m(2, 0);
   res(2, 1) = a * m(2, 1);
-  res(2, 1) = a * m(2, 2);
+  res(2, 2) = a * m(2, 2);
 
   return res;
 }
-- 
2.43.0


From d41ee84a2be0731d960e87a6c72d11c121724077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 16/49] fix: InterpMotion initialises its poses and reference
 point

The reference point documented as the local origin was left uninitialised, as were the poses of a default-constructed motion.
---
 include/fcl/math/motion/interp_motion-inl.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index c006841..0f9ddc8 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -50,7 +50,13 @@ class FCL_EXPORT InterpMotion<double>;
 //==============================================================================
 template <typename S>
 InterpMotion<S>::InterpMotion()
-  : MotionBase<S>(), angular_axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    linear_vel(Vector3<S>::Zero()),
+    angular_axis(Vector3<S>::UnitX()),
+    reference_p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
@@ -67,7 +73,8 @@ InterpMotion<S>::InterpMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>(),
     tf1(Transform3<S>::Identity()),
-    tf2(Transform3<S>::Identity())
+    tf2(Transform3<S>::Identity()),
+    reference_p(Vector3<S>::Zero())
 {
   tf1.linear() = R1;
   tf1.translation() = T1;
@@ -85,7 +92,7 @@ InterpMotion<S>::InterpMotion(
 template <typename S>
 InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_)
-  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1)
+  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(Vector3<S>::Zero())
 {
   // Compute the velocities for the motion
   computeVelocity();
-- 
2.43.0


From 5cbce77c554b1bbb7a722174e321333b168d13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 17/49] fix: InterpMotion(tf1, tf2, O) computes its velocities

---
 include/fcl/math/motion/interp_motion-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index 0f9ddc8..9a71340 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -129,7 +129,8 @@ InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_, const Vector3<S>& O)
   : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(O)
 {
-  // Do nothing
+  // Compute the velocities for the motion
+  computeVelocity();
 }
 
 //==============================================================================
-- 
2.43.0


From 616182beb9320285f37e8bb7a37fff2456f75b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 18/49] fix: ScrewMotion default constructor initialises poses
 and axis point

---
 include/fcl/math/motion/screw_motion-inl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index ae72d6c..7922a16 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -50,7 +50,12 @@ class FCL_EXPORT ScrewMotion<double>;
 //==============================================================================
 template <typename S>
 ScrewMotion<S>::ScrewMotion()
-  : MotionBase<S>(), axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    axis(Vector3<S>::UnitX()),
+    p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
-- 
2.43.0


From eeb5318e6ca54fb190e4157b29b21cad8435b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 19/49] fix: ScrewMotion without rotation reaches its end pose

The translation axis was not normalised, so the motion covered the square of the distance.
---
 include/fcl/math/motion/screw_motion-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index 7922a16..064af16 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -179,6 +179,7 @@ void ScrewMotion<S>::computeScrewParameter()
     angular_vel = 0;
     axis = tf2.translation() - tf1.translation();
     linear_vel = axis.norm();
+    if(linear_vel > 0) axis /= linear_vel;
     p = tf1.translation();
   }
   else
-- 
2.43.0


From f4b00316d473856149ce04d8ff4de72c6fb3d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 20/49] fix: constant coefficient of the spline motion's Taylor
 model

---
 include/fcl/math/motion/spline_motion-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index e3d992d..c3f0f00 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -164,7 +164,7 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
   // set tv
   Vector3<S> c[4];
-  c[0] = (Td[0] + Td[1] * 4 + Td[2] + Td[3]) * (1/6.0);
+  c[0] = (Td[0] + Td[1] * 4 + Td[2]) * (1/6.0);
   c[1] = (-Td[0] + Td[2]) * (1/2.0);
   c[2] = (Td[0] - Td[1] * 2 + Td[2]) * (1/2.0);
   c[3] = (-Td[0] + Td[1] * 3 - Td[2] * 3 + Td[3]) * (1/6.0);
-- 
2.43.0


From 83c41d0ebd5b703f18c9d9e60d86ac6fa6745cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 21/49] fix: parent-relative OBB recursion composes the
 relative rotation in the right order

The rotation of a child of the first node was passed transposed, so collide2
pruned pairs that collide (57 of 60 colliding mesh pairs in a random trial).
---
 .../fcl/narrowphase/detail/traversal/traversal_recurse-inl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index 1c46c1c..c0e9b71 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -161,7 +161,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv1 = node->model1->getBV(c1).bv;
 
-    Matrix3<S> Rc = R.transpose() * bv1.axis;
+    Matrix3<S> Rc = bv1.axis.transpose() * R;
     temp = T - bv1.To;
     Vector3<S> Tc = temp.transpose() * bv1.axis;
 
@@ -172,7 +172,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv2 = node->model1->getBV(c2).bv;
 
-    Rc.noalias() = R.transpose() * bv2.axis;
+    Rc.noalias() = bv2.axis.transpose() * R;
     temp = T - bv2.To;
     Tc[0] = bv2.axis.col(0).dot(temp);
     Tc[1] = bv2.axis.col(1).dot(temp);
-- 
2.43.0


From cf037c8a93a5d768474738f4f2ab36aca1cf0024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 22/49] fix: no cost source between an uncertain mesh and a
 free shape

---
 .../collision/mesh_shape_collision_traversal_node-inl.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index d24b467..573ab57 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -253,7 +253,7 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
-  else if((!model1->isFree() || model2.isFree()) && request.enable_cost)
+  else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(model2, tf2, p1, p2, p3, tf1, nullptr, nullptr, nullptr))
     {
-- 
2.43.0


From 90e8f42a71ff90241e2f0532e7b5fde88b594b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 23/49] fix: octree cells of unknown occupancy cost nothing
 when costs are off or the other side is free

---
 .../traversal/octree/octree_solver-inl.h      | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9c66696..5ca292c 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -335,6 +335,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
 {
   if(!root1)
   {
+    if(!crequest->enable_cost || s.isFree()) return false;
+
     OBB<S> obb1;
     convertBV(bv1, tf1, obb1);
     if(obb1.overlap(obb2))
@@ -578,6 +580,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
 {
   if(!root1)
   {
+    if(!crequest->enable_cost || tree2->isFree()) return false;
+
     if(tree2->getBV(root2).isLeaf())
     {
       OBB<S> obb1, obb2;
@@ -851,8 +855,13 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeDistanceRecurse(const OcTree<S>* tre
 template <typename NarrowPhaseSolver>
 bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tree1, const typename OcTree<S>::OcTreeNode* root1, const AABB<S>& bv1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& bv2, const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
-  if(!root1 && !root2)
+  // cells without children of which at least one is missing (i.e. unknown)
+  if((!root1 && (!root2 || !tree2->nodeHasChildren(root2))) ||
+     (!root2 && !tree1->nodeHasChildren(root1)))
   {
+    if(!crequest->enable_cost) return false;
+    if((root1 && tree1->isNodeFree(root1)) || (root2 && tree2->isNodeFree(root2))) return false;
+
     OBB<S> obb1, obb2;
     convertBV(bv1, tf1, obb1);
     convertBV(bv2, tf2, obb2);
@@ -869,14 +878,16 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
       computeBV(box1, box1_tf, aabb1);
       computeBV(box2, box2_tf, aabb2);
       aabb1.overlap(aabb2, overlap_part);
-      cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->getOccupancyThres()), crequest->num_max_cost_sources);
+      const S density1 = root1 ? root1->getOccupancy() : tree1->getOccupancyThres();
+      const S density2 = root2 ? root2->getOccupancy() : tree2->getOccupancyThres();
+      cresult->addCostSource(CostSource<S>(overlap_part, density1 * density2), crequest->num_max_cost_sources);
     }
 
     return false;
   }
   else if(!root1 && root2)
   {
-    if(tree2->nodeHasChildren(root2))
+    if(crequest->enable_cost && !tree2->isNodeFree(root2) && tree2->nodeHasChildren(root2))
     {
       for(unsigned int i = 0; i < 8; ++i)
       {
@@ -897,17 +908,12 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
         }
       }
     }
-    else
-    {
-      if(OcTreeIntersectRecurse(tree1, nullptr, bv1, tree2, nullptr, bv2, tf1, tf2))
-        return true;
-    }
 
     return false;
   }
   else if(root1 && !root2)
   {
-    if(tree1->nodeHasChildren(root1))
+    if(crequest->enable_cost && !tree1->isNodeFree(root1) && tree1->nodeHasChildren(root1))
     {
       for(unsigned int i = 0; i < 8; ++i)
       {
@@ -928,11 +934,6 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
         }
       }
     }
-    else
-    {
-      if(OcTreeIntersectRecurse(tree1, nullptr, bv1, tree2, nullptr, bv2, tf1, tf2))
-        return true;
-    }
 
     return false;
   }
-- 
2.43.0


From 12823f90a6003bc89166a70a29934ad4335f43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 24/49] fix: contacts and distance results keep the full octree
 cell id

---
 include/fcl/narrowphase/contact-inl.h         | 8 ++++----
 include/fcl/narrowphase/contact.h             | 4 ++--
 include/fcl/narrowphase/distance_result-inl.h | 8 ++++----
 include/fcl/narrowphase/distance_result.h     | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fcl/narrowphase/contact-inl.h b/include/fcl/narrowphase/contact-inl.h
index 88d26e5..e0b93dc 100644
--- a/include/fcl/narrowphase/contact-inl.h
+++ b/include/fcl/narrowphase/contact-inl.h
@@ -63,8 +63,8 @@ template <typename S>
 Contact<S>::Contact(
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_)
+    intptr_t b1_,
+    intptr_t b2_)
   : o1(o1_),
     o2(o2_),
     b1(b1_),
@@ -78,8 +78,8 @@ template <typename S>
 Contact<S>::Contact(
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_,
+    intptr_t b1_,
+    intptr_t b2_,
     const Vector3<S>& pos_,
     const Vector3<S>& normal_,
     S depth_)
diff --git a/include/fcl/narrowphase/contact.h b/include/fcl/narrowphase/contact.h
index eaa9b2f..6d750b5 100644
--- a/include/fcl/narrowphase/contact.h
+++ b/include/fcl/narrowphase/contact.h
@@ -82,9 +82,9 @@ struct FCL_EXPORT Contact
 
   Contact();
 
-  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_);
+  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_);
 
-  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_,
+  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_,
           const Vector3<S>& pos_, const Vector3<S>& normal_, S depth_);
 
   bool operator < (const Contact& other) const;
diff --git a/include/fcl/narrowphase/distance_result-inl.h b/include/fcl/narrowphase/distance_result-inl.h
index 424cffd..76c3230 100644
--- a/include/fcl/narrowphase/distance_result-inl.h
+++ b/include/fcl/narrowphase/distance_result-inl.h
@@ -67,8 +67,8 @@ void DistanceResult<S>::update(
     S distance,
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_)
+    intptr_t b1_,
+    intptr_t b2_)
 {
   if(min_distance > distance)
   {
@@ -87,8 +87,8 @@ void DistanceResult<S>::update(
     S distance,
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_,
+    intptr_t b1_,
+    intptr_t b2_,
     const Vector3<S>& p1,
     const Vector3<S>& p2)
 {
diff --git a/include/fcl/narrowphase/distance_result.h b/include/fcl/narrowphase/distance_result.h
index 97373a3..9f2c0b4 100644
--- a/include/fcl/narrowphase/distance_result.h
+++ b/include/fcl/narrowphase/distance_result.h
@@ -94,10 +94,10 @@ public:
   DistanceResult(S min_distance_ = std::numeric_limits<S>::max());
 
   /// @brief add distance information into the result
-  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_);
+  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_);
 
   /// @brief add distance information into the result
-  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_, const Vector3<S>& p1, const Vector3<S>& p2);
+  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_, const Vector3<S>& p1, const Vector3<S>& p2);
 
   /// @brief add distance information into the result
   void update(const DistanceResult& other_result);
-- 
2.43.0


From 2783a572fbf51c920b610636dc9514dd7417f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 25/49] fix: cone pointing into a half-space

The near-perpendicular branch was taken for every negative cosine, so a
cone whose apex points into the half-space was treated as a sphere of the
base radius and its contact missed or given a wrong depth.
---
 .../detail/primitive_shape_algorithm/halfspace-inl.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 09a86f5..29cde8d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -441,7 +441,7 @@ bool coneHalfspaceIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
   Vector3<S> dir_z = R.col(2);
   S cosa = dir_z.dot(new_s2.n);
 
-  if(cosa < halfspaceIntersectTolerance<S>())
+  if(std::abs(cosa) < halfspaceIntersectTolerance<S>())
   {
     S signed_dist = new_s2.signedDistance(T);
     S depth = s1.radius - signed_dist;
-- 
2.43.0


From f64afb7e318c15126d3e12a1baa88151e7519141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 26/49] fix: cylinder-plane test without contacts uses half the
 height

The test that does not compute contacts used the full height, so it
reported intersection of separated objects and disagreed with the test that
computes contacts.
---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..f9a601b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -399,7 +399,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
 
   Vector3<S> Q = R.transpose() * new_s2.n;
 
-  S term = std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
+  S term = 0.5 * std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
   S dist = new_s2.distance(T);
   S depth = term - dist;
 
-- 
2.43.0


From d25f0f52c7637b164f58f97516ca9b782388a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 27/49] fix: capsule crossing a plane by less than the
 tolerance

With contacts requested, a thin capsule crossing the plane with the product
of its end distances above minus the tolerance was treated as if both ends
were on the same side: the contact was missed or its depth understated.
---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index f9a601b..7d4dfb0 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -322,7 +322,7 @@ bool capsulePlaneIntersect(const Capsule<S>& s1, const Transform3<S>& tf1,
     // the contact point is the intersect of axis with the plane
     // the normal is the direction to avoid intersection
     // the depth is the minimum distance to resolve the collision
-    if(d1 * d2 < -planeIntersectTolerance<S>())
+    if(d1 * d2 < 0)
     {
       if(abs_d1 < abs_d2)
       {
-- 
2.43.0


From 938abaf4c03248f5ffaf74c32edc37e74d586169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 28/49] fix: half-spaces and planes with opposite normals

n x <= d1 and -n x <= d2 share points exactly when d1 + d2 >= 0; the test
was inverted, for two half-spaces as well as for a plane and a half-space.
---
 .../detail/primitive_shape_algorithm/halfspace-inl.h      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 29cde8d..6cac0dc 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -651,11 +651,11 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0)
+      if(new_s1.d + new_s2.d < 0)
         return false;
       else
       {
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         ret = 2;
         pl = new_s1;
         return true;
@@ -722,12 +722,12 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0) // not collision
+      if(new_s1.d + new_s2.d < 0) // not collision
         return false;
       else // in each other
       {
         ret = 3;
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         return true;
       }
     }
-- 
2.43.0


From ab8656890b4b065b6911c5baa2ee3003124f69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 29/49] fix: sign of the penetration depth of a convex in a
 half-space

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h         | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 6cac0dc..bccb6a1 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -529,9 +529,8 @@ bool convexHalfspaceIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
     // signed distance, so negating the normal cancels the negation of the
     // "penetration depth".
     if(contact_points) *contact_points = v - new_s2.n * (0.5 * depth);
-    // TODO(SeanCurtis-TRI): This appears to have the wrong sign for depth.
-    //  We've actually computed *signed distance* which is -depth.
-    if(penetration_depth) *penetration_depth = depth;
+    // We've actually computed *signed distance* which is -depth.
+    if(penetration_depth) *penetration_depth = -depth;
     // Note: This points *into* the half space. It is not clear this matches
     // any documented convention.
     if(normal) *normal = -new_s2.n;
-- 
2.43.0


From 4bd488a99ff4dd157aa14ffb8da98d698540e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 30/49] fix: nearest points of sphere-triangle distance are in
 the world frame

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..49b94d7 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -480,7 +480,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       Vector3<S> project_p = P1 * result.parameterization[0] + P2 * result.parameterization[1] + P3 * result.parameterization[2];
       Vector3<S> dir = o - project_p;
       dir.normalize();
-      if(p1) { *p1 = o - dir * sp.radius; *p1 = tf.inverse(Eigen::Isometry) * (*p1); }
+      if(p1) *p1 = o - dir * sp.radius;
       if(p2) *p2 = project_p;
       return true;
     }
@@ -499,10 +499,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Transform3<S>& tf2,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
-  bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
-
-  return res;
+  return detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
 }
 
 } // namespace detail
-- 
2.43.0


From 09cfec8445547455af004c16643e3b53e4ae9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 31/49] fix: sphere-triangle distance with nearest points
 reports contact as -1

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 49b94d7..49949f1 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -485,7 +485,10 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
-- 
2.43.0


From 5b5f70ca372ea749ed90a3d75e5f9a11e31ecce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 32/49] fix: sign of the sphere-triangle penetration depth

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 49949f1..fd3aa51 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -204,13 +204,13 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -(radius - distance);
+        if(penetration_depth) *penetration_depth = radius - distance;
       }
       else
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -radius;
+        if(penetration_depth) *penetration_depth = radius;
       }
 
       return true;
-- 
2.43.0


From b2eab31ff0ee7aac8995bc180273a42aa784f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 33/49] fix: nearest points of shape-triangle distance are in
 the world frame

---
 include/fcl/narrowphase/detail/gjk_solver_indep-inl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..50f6b0d 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -892,9 +892,10 @@ struct ShapeTriangleDistanceIndepImpl
       }
 
       if(distance) *distance = (w0 - w1).norm();
-      // The answers are produced in world coordinates. Keep them there.
-      if(p1) *p1 = w0;
-      if(p2) *p2 = w1;
+      // Answer is solved in the shape's local frame; answers are given in the
+      // world frame.
+      if(p1) p1->noalias() = tf * w0;
+      if(p2) p2->noalias() = tf * w1;
       return true;
     }
     else
-- 
2.43.0


From fa3724e755f5bee60089b2ee171ed1b416ff344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 34/49] fix: sphere-capsule contact position lies on the sphere

---
 .../detail/primitive_shape_algorithm/sphere_capsule-inl.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index c85d569..4b2e8b6 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -111,7 +111,7 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (contacts)
   {
     const Vector3<S> normal = tf2.linear() * local_normal;
-    const Vector3<S> point = tf2 * (segment_point + local_normal * distance);
+    const Vector3<S> point = tf2 * (s_c + local_normal * s1.radius);
     const S penetration_depth = -distance;
 
     contacts->emplace_back(normal, point, penetration_depth);
-- 
2.43.0


From db2dd9eb4c5becd7f45c4548273cd034aa4ed0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 35/49] fix: sphere-triangle contact is at the nearest edge

---
 .../primitive_shape_algorithm/sphere_triangle-inl.h   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index fd3aa51..b6c9a3b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -166,26 +166,29 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
     }
     else
     {
-      S contact_capsule_radius_sqr = radius_with_threshold * radius_with_threshold;
+      S min_distance_sqr = radius_with_threshold * radius_with_threshold;
       Vector3<S> nearest_on_edge;
       S distance_sqr;
       distance_sqr = segmentSqrDistance(P1, P2, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < min_distance_sqr)
       {
+        min_distance_sqr = distance_sqr;
         has_contact = true;
         contact_point = nearest_on_edge;
       }
 
       distance_sqr = segmentSqrDistance(P2, P3, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < min_distance_sqr)
       {
+        min_distance_sqr = distance_sqr;
         has_contact = true;
         contact_point = nearest_on_edge;
       }
 
       distance_sqr = segmentSqrDistance(P3, P1, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < min_distance_sqr)
       {
+        min_distance_sqr = distance_sqr;
         has_contact = true;
         contact_point = nearest_on_edge;
       }
-- 
2.43.0


From 3a01e18c29bf7238e43978de10de73b1a9e6bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 36/49] fix: dynamic AABB tree managers queried against
 themselves ran as a cross query, pairing every object with itself

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h  | 10 ++++++++++
 .../broadphase_dynamic_AABB_tree_array-inl.h           | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 1a7341b..76aad0c 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -969,6 +969,11 @@ void DynamicAABBTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
   detail::dynamic_AABB_tree::collisionRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -979,6 +984,11 @@ void DynamicAABBTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 3cec23c..e0f46f7 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -973,6 +973,11 @@ void DynamicAABBTreeCollisionManager_Array<S>::collide(BroadPhaseCollisionManage
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
   detail::dynamic_AABB_tree_array::collisionRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -983,6 +988,11 @@ void DynamicAABBTreeCollisionManager_Array<S>::distance(BroadPhaseCollisionManag
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
-- 
2.43.0


From 30b6c22e298c675ded68081c6241d5f8906bc8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 37/49] fix: polynomial continuous query left the moved
 vertices in the caller's meshes

---
 include/fcl/narrowphase/continuous_collision-inl.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b24d0b8..2d3a823 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -191,9 +191,12 @@ typename BV::S continuousCollideBVHPolynomial(
   const BVHModel<BV>* o1__ = static_cast<const BVHModel<BV>*>(o1_);
   const BVHModel<BV>* o2__ = static_cast<const BVHModel<BV>*>(o2_);
 
-  // ugly, but lets do it now.
-  BVHModel<BV>* o1 = const_cast<BVHModel<BV>*>(o1__);
-  BVHModel<BV>* o2 = const_cast<BVHModel<BV>*>(o2__);
+  // The query stores the end-of-motion vertices in the models, so it works on
+  // copies and leaves the caller's geometries alone.
+  BVHModel<BV> model1(*o1__);
+  BVHModel<BV> model2(*o2__);
+  BVHModel<BV>* o1 = &model1;
+  BVHModel<BV>* o2 = &model2;
   std::vector<Vector3<S>> new_v1(o1->num_vertices);
   std::vector<Vector3<S>> new_v2(o2->num_vertices);
 
-- 
2.43.0


From d6180ef79aa6709525c9e6ebc70081df6e9364a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 38/49] fix: shape-shape collision turned the solver's cached
 guess on when the request left it off

---
 include/fcl/narrowphase/detail/collision_func_matrix-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..d948eef 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -298,7 +298,7 @@ std::size_t ShapeShapeCollide(
   }
   else
   {
-    nsolver->enableCachedGuess(true);
+    nsolver->enableCachedGuess(false);
   }
 
   initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result);
-- 
2.43.0


From c6d6817bd5f4378762ee0ab27356903badef7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 39/49] fix: distance between a halfspace and an ellipsoid (in
 that order) had no routine

---
 include/fcl/narrowphase/detail/distance_func_matrix-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..f08cdcf 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -564,6 +564,7 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
 
   distance_matrix[GEOM_HALFSPACE][GEOM_BOX] = &ShapeShapeDistance<Halfspace<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_SPHERE] = &ShapeShapeDistance<Halfspace<S>, Sphere<S>, NarrowPhaseSolver>;
+  distance_matrix[GEOM_HALFSPACE][GEOM_ELLIPSOID] = &ShapeShapeDistance<Halfspace<S>, Ellipsoid<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_CAPSULE] = &ShapeShapeDistance<Halfspace<S>, Capsule<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_CONE] = &ShapeShapeDistance<Halfspace<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_CYLINDER] = &ShapeShapeDistance<Halfspace<S>, Cylinder<S>, NarrowPhaseSolver>;
-- 
2.43.0


From 7ea6beb3f2b0f25a08a9d964b3264322473ce95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 40/49] fix: repeated mesh distance queries moved the nearest
 points of a result they did not improve

---
 .../mesh_distance_traversal_node-inl.h        | 59 +++++++++++++------
 .../distance/mesh_distance_traversal_node.h   |  3 +
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
index 558149d..67f6f6c 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
@@ -102,6 +102,8 @@ MeshDistanceTraversalNode<BV>::MeshDistanceTraversalNode() : BVHDistanceTraversa
 
   rel_err = this->request.rel_err;
   abs_err = this->request.abs_err;
+
+  min_distance_before = std::numeric_limits<S>::max();
 }
 
 //==============================================================================
@@ -233,6 +235,8 @@ MeshDistanceTraversalNodeRSS<S>::MeshDistanceTraversalNodeRSS()
 template <typename S>
 void MeshDistanceTraversalNodeRSS<S>::preprocess()
 {
+  this->min_distance_before = this->result->min_distance;
+
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -251,12 +255,17 @@ void MeshDistanceTraversalNodeRSS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodeRSS<S>::postprocess()
 {
-  detail::distancePostprocessOrientedNode(
-        this->model1,
-        this->model2,
-        this->tf1,
-        this->request,
-        *this->result);
+  // The nearest points are in the frame of the first model only if this
+  // traversal found them; otherwise they are still those of the given result.
+  if(this->result->min_distance < this->min_distance_before)
+  {
+    detail::distancePostprocessOrientedNode(
+          this->model1,
+          this->model2,
+          this->tf1,
+          this->request,
+          *this->result);
+  }
 }
 
 //==============================================================================
@@ -292,6 +301,8 @@ MeshDistanceTraversalNodekIOS<S>::MeshDistanceTraversalNodekIOS()
 template <typename S>
 void MeshDistanceTraversalNodekIOS<S>::preprocess()
 {
+  this->min_distance_before = this->result->min_distance;
+
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -310,12 +321,17 @@ void MeshDistanceTraversalNodekIOS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodekIOS<S>::postprocess()
 {
-  detail::distancePostprocessOrientedNode(
-        this->model1,
-        this->model2,
-        this->tf1,
-        this->request,
-        *this->result);
+  // The nearest points are in the frame of the first model only if this
+  // traversal found them; otherwise they are still those of the given result.
+  if(this->result->min_distance < this->min_distance_before)
+  {
+    detail::distancePostprocessOrientedNode(
+          this->model1,
+          this->model2,
+          this->tf1,
+          this->request,
+          *this->result);
+  }
 }
 
 //==============================================================================
@@ -351,6 +367,8 @@ MeshDistanceTraversalNodeOBBRSS<S>::MeshDistanceTraversalNodeOBBRSS()
 template <typename S>
 void MeshDistanceTraversalNodeOBBRSS<S>::preprocess()
 {
+  this->min_distance_before = this->result->min_distance;
+
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -369,12 +387,17 @@ void MeshDistanceTraversalNodeOBBRSS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodeOBBRSS<S>::postprocess()
 {
-  detail::distancePostprocessOrientedNode(
-        this->model1,
-        this->model2,
-        this->tf1,
-        this->request,
-        *this->result);
+  // The nearest points are in the frame of the first model only if this
+  // traversal found them; otherwise they are still those of the given result.
+  if(this->result->min_distance < this->min_distance_before)
+  {
+    detail::distancePostprocessOrientedNode(
+          this->model1,
+          this->model2,
+          this->tf1,
+          this->request,
+          *this->result);
+  }
 }
 
 //==============================================================================
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
index 92f4461..2b11241 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
@@ -75,6 +75,9 @@ public:
   /// @brief relative and absolute error, default value is 0.01 for both terms
   S rel_err;
   S abs_err;
+
+  /// @brief Distance in the result when the traversal started
+  S min_distance_before;
 };
 
 /// @brief Initialize traversal node for distance computation between two
-- 
2.43.0


From 06a9e7f3c043306ea83f382dfcef80bdef361fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 41/49] fix: SaP manager reported emptiness inverted and used
 freed entries when unregistering

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..bc567bb 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,14 +58,13 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
@@ -92,8 +91,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
@@ -872,7 +873,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
-- 
2.43.0


From 514d8608d3c960f2fd301ab8f1130f96fdebb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 42/49] fix: SSaP manager kept an unregistered object whose box
 had changed

---
 include/fcl/broadphase/broadphase_SSaP-inl.h | 46 +++-----------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..9c560a9 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -100,47 +100,13 @@ public:
 template <typename S>
 void SSaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 {
-  setup();
-
-  DummyCollisionObject<S> dummyHigh(AABB<S>(obj->getAABB().max_));
-
-  auto pos_start1 = objs_x.begin();
-  auto pos_end1 = std::upper_bound(pos_start1, objs_x.end(), &dummyHigh, SortByXLow<S>());
-
-  while(pos_start1 < pos_end1)
-  {
-    if(*pos_start1 == obj)
-    {
-      objs_x.erase(pos_start1);
-      break;
-    }
-    ++pos_start1;
-  }
-
-  auto pos_start2 = objs_y.begin();
-  auto pos_end2 = std::upper_bound(pos_start2, objs_y.end(), &dummyHigh, SortByYLow<S>());
-
-  while(pos_start2 < pos_end2)
+  // The object is looked up by identity: its AABB may have changed since the
+  // lists were sorted.
+  for(auto* objs : {&objs_x, &objs_y, &objs_z})
   {
-    if(*pos_start2 == obj)
-    {
-      objs_y.erase(pos_start2);
-      break;
-    }
-    ++pos_start2;
-  }
-
-  auto pos_start3 = objs_z.begin();
-  auto pos_end3 = std::upper_bound(pos_start3, objs_z.end(), &dummyHigh, SortByZLow<S>());
-
-  while(pos_start3 < pos_end3)
-  {
-    if(*pos_start3 == obj)
-    {
-      objs_z.erase(pos_start3);
-      break;
-    }
-    ++pos_start3;
+    const auto pos = std::find(objs->begin(), objs->end(), obj);
+    if(pos != objs->end())
+      objs->erase(pos);
   }
 }
 
-- 
2.43.0


From eabae52b805c907fcb393d4738e1dc7caa4f8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 43/49] fix: interval tree manager lost track of moved objects
 and leaked intervals

---
 .../broadphase/broadphase_interval_tree-inl.h | 94 ++++---------------
 1 file changed, 16 insertions(+), 78 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..80f217d 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -54,84 +54,14 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   // must sorted before
   setup();
 
-  EndPoint p;
-  p.value = obj->getAABB().min_[0];
-  auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
-  p.value = obj->getAABB().max_[0];
-  auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
-
-  if(start1 < end1)
-  {
-    unsigned int start_id = start1 - endpoints[0].begin();
-    unsigned int end_id = end1 - endpoints[0].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[0][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[0][cur_id] = endpoints[0][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
-  }
-
-  p.value = obj->getAABB().min_[1];
-  auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
-  p.value = obj->getAABB().max_[1];
-  auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
-
-  if(start2 < end2)
-  {
-    unsigned int start_id = start2 - endpoints[1].begin();
-    unsigned int end_id = end2 - endpoints[1].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[1][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[1][cur_id] = endpoints[1][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
-  }
-
-
-  p.value = obj->getAABB().min_[2];
-  auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
-  p.value = obj->getAABB().max_[2];
-  auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
-
-  if(start3 < end3)
+  // The end points are looked up by identity: the AABB of the object may have
+  // changed since they were recorded.
+  for(int i = 0; i < 3; ++i)
   {
-    unsigned int start_id = start3 - endpoints[2].begin();
-    unsigned int end_id = end3 - endpoints[2].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[2][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[2][cur_id] = endpoints[2][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+    endpoints[i].erase(
+        std::remove_if(endpoints[i].begin(), endpoints[i].end(),
+                       [obj](const EndPoint& p) { return p.obj == obj; }),
+        endpoints[i].end());
   }
 
   // update the interval tree
@@ -210,6 +140,14 @@ void IntervalTreeCollisionManager<S>::setup()
     for(int i = 0; i < 3; ++i)
       delete interval_trees[i];
 
+    // the intervals of an earlier set-up
+    for(int i = 0; i < 3; ++i)
+    {
+      for(const auto& entry : obj_interval_maps[i])
+        delete entry.second;
+      obj_interval_maps[i].clear();
+    }
+
     for(int i = 0; i < 3; ++i)
       interval_trees[i] = new detail::IntervalTree<S>;
 
@@ -307,7 +245,7 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
     it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
     for(; it != endpoints[i].end(); ++it)
     {
-      if(it->obj == updated_obj && it->minmax == 0)
+      if(it->obj == updated_obj && it->minmax == 1)
       {
         it->value = new_aabb.max_[i];
         break;
-- 
2.43.0


From 937e260c293b8dbabc1a9a9f68ea6790a21afc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 44/49] fix: spatial hash manager kept traces of unregistered
 and cleared objects

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..026093e 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -99,9 +99,15 @@ void SpatialHashingCollisionManager<S, HashTable>::registerObject(
 template<typename S, typename HashTable>
 void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObject<S>* obj)
 {
+  const auto registered = obj_aabb_map.find(obj);
+  if(registered == obj_aabb_map.end())
+    return;
+
   objs.remove(obj);
 
-  const AABB<S>& obj_aabb = obj->getAABB();
+  // The AABB the object was registered (or last updated) with; its current one
+  // may be different.
+  const AABB<S> obj_aabb = registered->second;
   AABB<S> overlap_aabb;
 
   if(scene_limit.overlap(obj_aabb, overlap_aabb))
@@ -116,7 +122,7 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
     objs_outside_scene_limit.remove(obj);
   }
 
-  obj_aabb_map.erase(obj);
+  obj_aabb_map.erase(registered);
 }
 
 //==============================================================================
@@ -284,6 +290,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
-- 
2.43.0


From 85e0c908f50350a51d7c0e9de235837425bcaa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 45/49] fix: assigning a mesh model shared its storage, so it
 was released twice

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 32 +++++++++++++++++++++++-
 include/fcl/geometry/bvh/BVH_model.h     |  3 +++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 906a593..24f56c9 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -88,7 +88,8 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bv_splitter(other.bv_splitter),
     bv_fitter(other.bv_fitter),
     num_tris_allocated(other.num_tris),
-    num_vertices_allocated(other.num_vertices)
+    num_vertices_allocated(other.num_vertices),
+    num_vertex_updated(other.num_vertex_updated)
 {
   if(other.vertices)
   {
@@ -145,6 +146,35 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bvs = nullptr;
 }
 
+//==============================================================================
+template <typename BV>
+BVHModel<BV>& BVHModel<BV>::operator=(const BVHModel<BV>& other)
+{
+  if(this != &other)
+  {
+    BVHModel<BV> copy(other);
+    CollisionGeometry<S>::operator=(other);
+
+    std::swap(vertices, copy.vertices);
+    std::swap(tri_indices, copy.tri_indices);
+    std::swap(prev_vertices, copy.prev_vertices);
+    std::swap(num_tris, copy.num_tris);
+    std::swap(num_vertices, copy.num_vertices);
+    std::swap(build_state, copy.build_state);
+    std::swap(bv_splitter, copy.bv_splitter);
+    std::swap(bv_fitter, copy.bv_fitter);
+    std::swap(num_tris_allocated, copy.num_tris_allocated);
+    std::swap(num_vertices_allocated, copy.num_vertices_allocated);
+    std::swap(num_bvs_allocated, copy.num_bvs_allocated);
+    std::swap(num_vertex_updated, copy.num_vertex_updated);
+    std::swap(primitive_indices, copy.primitive_indices);
+    std::swap(bvs, copy.bvs);
+    std::swap(num_bvs, copy.num_bvs);
+  }
+
+  return *this;
+}
+
 //==============================================================================
 template <typename BV>
 BVHModel<BV>::~BVHModel()
diff --git a/include/fcl/geometry/bvh/BVH_model.h b/include/fcl/geometry/bvh/BVH_model.h
index 294d521..a9bd765 100644
--- a/include/fcl/geometry/bvh/BVH_model.h
+++ b/include/fcl/geometry/bvh/BVH_model.h
@@ -69,6 +69,9 @@ public:
   /// @brief copy from another BVH
   BVHModel(const BVHModel& other);
 
+  /// @brief replace the content by a copy of another BVH
+  BVHModel& operator=(const BVHModel& other);
+
   /// @brief deconstruction, delete mesh data related.
   ~BVHModel();
 
-- 
2.43.0


From 5f2a57b77138011b75f7dc6f823ea156912abe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 46/49] fix: beginModel after an out-of-sequence beginModel
 leaked the model's arrays

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 24f56c9..2ce0aaf 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -236,16 +236,14 @@ NODE_TYPE BVHModel<BV>::getNodeType() const
 template <typename BV>
 int BVHModel<BV>::beginModel(int num_tris_, int num_vertices_)
 {
-  if(build_state != BVH_BUILD_STATE_EMPTY)
-  {
-    delete [] vertices; vertices = nullptr;
-    delete [] tri_indices; tri_indices = nullptr;
-    delete [] bvs; bvs = nullptr;
-    delete [] prev_vertices; prev_vertices = nullptr;
-    delete [] primitive_indices; primitive_indices = nullptr;
-
-    num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
-  }
+  // An empty model still holds storage after a beginModel() out of sequence.
+  delete [] vertices; vertices = nullptr;
+  delete [] tri_indices; tri_indices = nullptr;
+  delete [] bvs; bvs = nullptr;
+  delete [] prev_vertices; prev_vertices = nullptr;
+  delete [] primitive_indices; primitive_indices = nullptr;
+
+  num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
 
   if(num_tris_ < 0) num_tris_ = 8;
   if(num_vertices_ <= 0) num_vertices_ = 8;
-- 
2.43.0


From aa252b7ce9a5ca097fd23a82c466f0d1bdbd3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 47/49] fix: addTriangle and addSubModel were accepted outside
 beginModel/endModel and overran the vertex storage

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 2ce0aaf..63bc3ca 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -315,7 +315,7 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 template <typename BV>
 int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addTriangle() in a wrong order. addTriangle() was ignored. Must do a beginModel() to clear the model for addition of new triangles.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -374,7 +374,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -410,7 +410,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vector<Triangle>& ts)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
-- 
2.43.0


From b59751b7b900fcd0ab7ab067ee08fd0c3cca1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 48/49] fix: vertices added to a copy of a just begun mesh
 model overran its storage

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 63bc3ca..f130324 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -292,6 +292,10 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 
   if(num_vertices >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2];
     if(!temp)
     {
@@ -323,6 +327,10 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 
   if(num_vertices + 2 >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + 2];
     if(!temp)
     {
@@ -384,6 +392,10 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 
   if(num_vertices + num_vertices_to_add - 1 >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add - 1];
     if(!temp)
     {
@@ -420,6 +432,10 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vect
 
   if(num_vertices + num_vertices_to_add - 1 >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add - 1];
     if(!temp)
     {
-- 
2.43.0


From a6cd4feb4c6eba21f93dd9ed6cc9997a95a4b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 49/49] fix: replacing or updating with more vertices than the
 mesh has overran its storage

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 59 +++++++++++++-----------
 include/fcl/geometry/bvh/BVH_model.h     |  3 ++
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index f130324..269403f 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -585,12 +585,15 @@ int BVHModel<BV>::beginReplaceModel()
 
 //==============================================================================
 template <typename BV>
-int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
+int BVHModel<BV>::setNextVertex(const Vector3<S>& p)
 {
-  if(build_state != BVH_BUILD_STATE_REPLACE_BEGUN)
+  // Surplus vertices are counted, for the end of the replacement or update to
+  // report, and not stored.
+  if(num_vertex_updated >= num_vertices)
   {
-    std::cerr << "BVH Warning! Call replaceVertex() in a wrong order. replaceVertex() was ignored. Must do a beginReplaceModel() for initialization.\n";
-    return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
+    std::cerr << "BVH Error! More vertices given than the model has.\n";
+    num_vertex_updated = num_vertices + 1;
+    return BVH_ERR_INCORRECT_DATA;
   }
 
   vertices[num_vertex_updated] = p;
@@ -599,6 +602,19 @@ int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
   return BVH_OK;
 }
 
+//==============================================================================
+template <typename BV>
+int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
+{
+  if(build_state != BVH_BUILD_STATE_REPLACE_BEGUN)
+  {
+    std::cerr << "BVH Warning! Call replaceVertex() in a wrong order. replaceVertex() was ignored. Must do a beginReplaceModel() for initialization.\n";
+    return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
+  }
+
+  return setNextVertex(p);
+}
+
 //==============================================================================
 template <typename BV>
 int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
@@ -609,10 +625,9 @@ int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, co
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p1; num_vertex_updated++;
-  vertices[num_vertex_updated] = p2; num_vertex_updated++;
-  vertices[num_vertex_updated] = p3; num_vertex_updated++;
-  return BVH_OK;
+  setNextVertex(p1);
+  setNextVertex(p2);
+  return setNextVertex(p3);
 }
 
 //==============================================================================
@@ -625,12 +640,10 @@ int BVHModel<BV>::replaceSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  int res = BVH_OK;
   for(unsigned int i = 0; i < ps.size(); ++i)
-  {
-    vertices[num_vertex_updated] = ps[i];
-    num_vertex_updated++;
-  }
-  return BVH_OK;
+    res = setNextVertex(ps[i]);
+  return res;
 }
 
 //==============================================================================
@@ -702,10 +715,7 @@ int BVHModel<BV>::updateVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p;
-  num_vertex_updated++;
-
-  return BVH_OK;
+  return setNextVertex(p);
 }
 
 //==============================================================================
@@ -718,10 +728,9 @@ int BVHModel<BV>::updateTriangle(const Vector3<S>& p1, const Vector3<S>& p2, con
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p1; num_vertex_updated++;
-  vertices[num_vertex_updated] = p2; num_vertex_updated++;
-  vertices[num_vertex_updated] = p3; num_vertex_updated++;
-  return BVH_OK;
+  setNextVertex(p1);
+  setNextVertex(p2);
+  return setNextVertex(p3);
 }
 
 //==============================================================================
@@ -734,12 +743,10 @@ int BVHModel<BV>::updateSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  int res = BVH_OK;
   for(unsigned int i = 0; i < ps.size(); ++i)
-  {
-    vertices[num_vertex_updated] = ps[i];
-    num_vertex_updated++;
-  }
-  return BVH_OK;
+    res = setNextVertex(ps[i]);
+  return res;
 }
 
 //==============================================================================
diff --git a/include/fcl/geometry/bvh/BVH_model.h b/include/fcl/geometry/bvh/BVH_model.h
index a9bd765..28b8a86 100644
--- a/include/fcl/geometry/bvh/BVH_model.h
+++ b/include/fcl/geometry/bvh/BVH_model.h
@@ -199,6 +199,9 @@ private:
   /// @brief Number of BV nodes in bounding volume hierarchy
   int num_bvs;
 
+  /// @brief Store one more vertex of the frame being replaced or updated
+  int setNextVertex(const Vector3<S>& p);
+
   /// @brief Build the bounding volume hierarchy
   int buildTree();
 
-- 
2.43.0

