From 363d3a485d95a773a90c6562535d5767386ffe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 01/31] fix: isTransform and isRotation check the norms of the
 columns

R^T R = I and det R = 1 was documented, but the norms tested were those of
the rows while the products were those of the columns, so that matrices with
columns of the wrong length were accepted.
---
 src/types/alrotation.cpp  | 6 +++---
 src/types/altransform.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/alrotation.cpp b/src/types/alrotation.cpp
index ef0a0d7..b8cede0 100644
--- a/src/types/alrotation.cpp
+++ b/src/types/alrotation.cpp
@@ -175,17 +175,17 @@ namespace AL {
         return false;
       }
 
-      if (std::abs(r1_c1*r1_c1 + r1_c2*r1_c2 + r1_c3*r1_c3 - 1.0f) > pEpsilon)
+      if (std::abs(r1_c1*r1_c1 + r2_c1*r2_c1 + r3_c1*r3_c1 - 1.0f) > pEpsilon)
       {
         return false;
       }
 
-      if (std::abs(r2_c1*r2_c1 + r2_c2*r2_c2 + r2_c3*r2_c3 - 1.0f) > pEpsilon)
+      if (std::abs(r1_c2*r1_c2 + r2_c2*r2_c2 + r3_c2*r3_c2 - 1.0f) > pEpsilon)
       {
         return false;
       }
 
-      if (std::abs(r3_c1*r3_c1 + r3_c2*r3_c2 + r3_c3*r3_c3 - 1.0f) > pEpsilon)
+      if (std::abs(r1_c3*r1_c3 + r2_c3*r2_c3 + r3_c3*r3_c3 - 1.0f) > pEpsilon)
       {
         return false;
       }
diff --git a/src/types/altransform.cpp b/src/types/altransform.cpp
index 4e6608f..26afc99 100644
--- a/src/types/altransform.cpp
+++ b/src/types/altransform.cpp
@@ -218,17 +218,17 @@ namespace AL {
         return false;
       }
 
-      if (std::abs(r1_c1*r1_c1 + r1_c2*r1_c2 + r1_c3*r1_c3 - 1.0f) > pEpsilon)
+      if (std::abs(r1_c1*r1_c1 + r2_c1*r2_c1 + r3_c1*r3_c1 - 1.0f) > pEpsilon)
       {
         return false;
       }
 
-      if (std::abs(r2_c1*r2_c1 + r2_c2*r2_c2 + r2_c3*r2_c3 - 1.0f) > pEpsilon)
+      if (std::abs(r1_c2*r1_c2 + r2_c2*r2_c2 + r3_c2*r3_c2 - 1.0f) > pEpsilon)
       {
         return false;
       }
 
-      if (std::abs(r3_c1*r3_c1 + r3_c2*r3_c2 + r3_c3*r3_c3 - 1.0f) > pEpsilon)
+      if (std::abs(r1_c3*r1_c3 + r2_c3*r2_c3 + r3_c3*r3_c3 - 1.0f) > pEpsilon)
       {
         return false;
       }
-- 
2.43.0


From 8ed2d615cd783c1633d2feee72f87db5674668df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 02/31] fix: isTransform and isRotation refuse matrices which
 contain NaN

---
 src/types/alrotation.cpp  | 2 +-
 src/types/altransform.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/alrotation.cpp b/src/types/alrotation.cpp
index b8cede0..e756206 100644
--- a/src/types/alrotation.cpp
+++ b/src/types/alrotation.cpp
@@ -192,7 +192,7 @@ namespace AL {
 
       const float det = Math::determinant(*this);
 
-      if (std::abs(det-1.0f) > pEpsilon)
+      if (!(std::abs(det-1.0f) <= pEpsilon))
       {
         return false;
       }
diff --git a/src/types/altransform.cpp b/src/types/altransform.cpp
index 26afc99..bea2559 100644
--- a/src/types/altransform.cpp
+++ b/src/types/altransform.cpp
@@ -235,7 +235,7 @@ namespace AL {
 
       const float det = Math::determinant(*this);
 
-      if (std::abs(det-1.0f) > pEpsilon)
+      if (!(std::abs(det-1.0f) <= pEpsilon))
       {
         return false;
       }
-- 
2.43.0


From e3f3cf32b7fea28a40fc5a69f10cb94319f797a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 03/31] fix: quaternionFromTransform is accurate near
 half-turns and small angles

The half angle was computed from its cosine only: the square root of
1 - qs^2 lost half of the digits near 0 and was NaN when the trace exceeded
4 by rounding. Use both the sine and the cosine.
---
 src/tools/altransformhelpers.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..f89327c 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1167,6 +1167,9 @@ namespace AL {
       float ky = pT.r1_c3 - pT.r3_c1; // Ax - Nz
       float kz = pT.r2_c1 - pT.r1_c2; // Ny - Ox
 
+      // sine of the rotation angle
+      const float si = 0.5f*std::sqrt(kx*kx + ky*ky + kz*kz);
+
       float kx1 = 0.0f;
       float ky1 = 0.0f;
       float kz1 = 0.0f;
@@ -1215,14 +1218,13 @@ namespace AL {
       }
       else
       {
-        float trace = pT.r1_c1 + pT.r2_c2 + pT.r3_c3 + 1.0f;
-        if (trace < 0.0f)
-        {
-          trace = 0.0f;
-        }
+        // half of the rotation angle, from its sine and its cosine: using the
+        // cosine alone is inaccurate near 0 and near PI
+        const float co = 0.5f*(pT.r1_c1 + pT.r2_c2 + pT.r3_c3 - 1.0f);
+        const float halfAngle = 0.5f*std::atan2(si, co);
 
-        const float qs = 0.5f*std::sqrt(trace);
-        const float s = std::sqrt(1.0f - std::pow(qs, 2)) / nm;
+        const float qs = std::cos(halfAngle);
+        const float s = std::sin(halfAngle) / nm;
         return Quaternion(qs, s*kx, s*ky, s*kz);
       }
     } // end quaternionFromTransform
-- 
2.43.0


From 310b0d95fd02d06964fe893571e69eb068824cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 04/31] fix: quaternions and axes from angle and axis
 conversions are normalised

The normalised copies were discarded, so that a quaternion whose norm was not
exactly 1 gave NaN angles or axes which were not unit vectors, and small
angles were inaccurate.
---
 src/types/alquaternion.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..dfbef30 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -146,8 +146,7 @@ namespace AL {
       qua.y = pAxisY*sin_a;
       qua.z = pAxisZ*sin_a;
 
-      qua.normalize();
-      return qua;
+      return qua.normalize();
     }
 
 
@@ -242,31 +241,24 @@ namespace AL {
       float& pAxisY,
       float& pAxisZ)
     {
-      Quaternion copy = pQuaternion;
-      copy.normalize();
-      pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
-      float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
+      const Quaternion copy = pQuaternion.normalize();
+      const float sin_angle = std::sqrt(copy.x*copy.x +
+                                        copy.y*copy.y +
+                                        copy.z*copy.z);
+      pAngle = 2.0f*std::atan2(sin_angle, copy.w);
 
-      if (std::abs(sin_angle) < 0.0005f)
-      {
-        sin_angle = 1.0f;
-      }
-
-      pAxisX = copy.x / sin_angle;
-      pAxisY = copy.y / sin_angle;
-      pAxisZ = copy.z / sin_angle;
-
-      const float normAxe =
-          std::sqrt(std::pow(pAxisX, 2) +
-                    std::pow(pAxisY, 2) +
-                    std::pow(pAxisZ, 2));
-
-      if (normAxe < 0.0001f)
+      if (sin_angle < 1e-10f)
       {
         pAxisX = 1.0f;
         pAxisY = 0.0f;
         pAxisZ = 0.0f;
       }
+      else
+      {
+        pAxisX = copy.x / sin_angle;
+        pAxisY = copy.y / sin_angle;
+        pAxisZ = copy.z / sin_angle;
+      }
     }
 
     std::vector<float> angleAndAxisRotationFromQuaternion(
-- 
2.43.0


From e33f460d6835cb77274798a40bb19c2396ca2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/31] fix: transformLogarithm is accurate for small angles

The limit of angle/(2*sin(angle)) is 1/2; the regularised quotient was off by
up to one half for angles below 0.001.
---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index f89327c..2b3696b 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,7 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          coeff = 0.5f; // limit of angle/(2*sin(angle))
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From d117ca9080deba23baef745519a4411d1ccc5359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 06/31] fix: orthogonalSpace gives an orthonormal base for
 directions close to the z axis

---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 2b3696b..36d4414 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1102,7 +1102,7 @@ namespace AL {
       }
       else
       {
-        axis = AL::Math::Position3D(axis3.z, 0.0f, 0.0f);
+        axis = AL::Math::Position3D(axis3.z, 0.0f, -axis3.x);
       }
 
       axis1 = AL::Math::normalize(axis);
-- 
2.43.0


From 23ca46f9e589a05c217f4fefa99a5c815469f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 07/31] fix: modulo2PI never returns -PI

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..0729b15 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From df3cc15207cc5a423a96dc55472802aa361d762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 08/31] fix: weightedMeanAngle does not depend on the scale of
 the weights

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 0729b15..a012910 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -58,7 +58,7 @@ namespace AL
         weightSum += *w;
         sumPosition += *w * Math::Position2D(std::cos(*a), std::sin(*a));
       }
-      if (sumPosition.norm() < 1e-3f) {
+      if (sumPosition.norm() <= 1e-3f * weightSum) {
         throw std::runtime_error("No defined mean.");
       }
       return Math::modulo2PI(std::atan2(sumPosition.y, sumPosition.x));
-- 
2.43.0


From fa6fc93e535b4e3a645619861b65cb2b1773e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 09/31] fix: axisRotationProjection returns a rotation in
 degenerate cases

---
 src/tools/altransformhelpers.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 36d4414..914f7fe 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -4,6 +4,7 @@
  * found in the COPYING file.
  */
 
+#include <algorithm>
 #include <cmath>
 
 #include <almath/tools/altransformhelpers.h>
@@ -830,7 +831,10 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos( c / std::sqrt( a*a + b*b ) );
+      const float norm_ab = std::sqrt( a*a + b*b );
+      // in the degenerate case, any angle is a solution
+      const float beta   = norm_ab > 0.0f ?
+            std::acos( std::max( -1.0f, std::min( 1.0f, c / norm_ab ) ) ) : 0.0f;
 
       const float cos_1 = 1.0f - std::cos( alpha + beta );
       const float cos_2 = 1.0f - std::cos( alpha - beta );
@@ -933,7 +937,10 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos(c / std::sqrt(a*a + b*b));
+      const float norm_ab = std::sqrt(a*a + b*b);
+      // in the degenerate case, any angle is a solution
+      const float beta   = norm_ab > 0.0f ?
+            std::acos(std::max(-1.0f, std::min(1.0f, c / norm_ab))) : 0.0f;
 
       const float cos_1 = 1.0f - std::cos(alpha + beta);
       const float cos_2 = 1.0f - std::cos(alpha - beta);
-- 
2.43.0


From 3e2f7c605dd43c59f3b43259ff7d3c9663c013d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 10/31] fix: getDubinsSolutions headings count the turns in
 their direction

---
 src/tools/aldubinscurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index 1438927..77c91c2 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -344,13 +344,13 @@ namespace AL {
       }
       if (!bestTangent.at(0).isLeft && angle1 > 0.0f)
       {
-        solutions.at(0).theta = 2.0f * PI + angle1;
+        solutions.at(0).theta = angle1 - 2.0f * PI;
       }
       // second tangent
       float angle2 = solutions.at(2).theta - solutions.at(1).theta;
       if (bestTangent.at(1).isLeft && angle2 < 0.0f)
       {
-        solutions.at(1).theta = 2.0f * PI - angle2 + solutions.at(2).theta;
+        solutions.at(1).theta -= 2.0f * PI;
       }
       if (!bestTangent.at(1).isLeft && angle2 > 0.0f)
       {
-- 
2.43.0


From de5d7aebf34688766b879801417c0d5a26b8d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 11/31] fix: intersectionSegment2D is accurate for almost
 vertical segments

---
 src/tools/avoidfootcollision.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index efc73e6..a42db66 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -55,20 +55,22 @@ namespace AL
         return false;
       }
       float rA = 0.0f;
-      if (std::abs(gxA) <lTol)
+      // divide by the largest component, for the sake of precision
+      if (std::abs(gxA) < std::abs(gyA))
       {
         if(std::abs(gyA) <lTol)
         {
           return false;
         }
-        else
-        {
-          rA = (pyB1 - pyA1 + rB*gyB)/gyA;
-        }
+        rA = (pyB1 - pyA1 + rB*gyB)/gyA;
       }
       else
       {
-         rA = (pxB1 - pxA1 + rB*gxB)/gxA;
+        if(std::abs(gxA) <lTol)
+        {
+          return false;
+        }
+        rA = (pxB1 - pxA1 + rB*gxB)/gxA;
       }
       if (rA < 0.0f || rA > 1.0f) //Intersection out of the segment A
       {
-- 
2.43.0


From b2ba15d6ec2d50015757a894001ef60b3c130328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 12/31] fix: areTwoBoxesInCollision detects boxes whose edges
 are aligned

---
 src/tools/avoidfootcollision.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index a42db66..bd9144d 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -49,8 +49,10 @@ namespace AL
         return false;
       }
 
+      // the ends belong to the segments, whatever the rounding errors
+      const float lEndTol = 1e-5f;
       const float rB = (gyA*(pxA1 - pxB1) + gxA*(pyB1 - pyA1))/den;
-      if (rB < 0.0f || rB > 1.0f) //Intersection out of the segment B
+      if (rB < -lEndTol || rB > 1.0f + lEndTol) //Intersection out of the segment B
       {
         return false;
       }
@@ -72,7 +74,7 @@ namespace AL
         }
         rA = (pxB1 - pxA1 + rB*gxB)/gxA;
       }
-      if (rA < 0.0f || rA > 1.0f) //Intersection out of the segment A
+      if (rA < -lEndTol || rA > 1.0f + lEndTol) //Intersection out of the segment A
       {
         return false;
       }
-- 
2.43.0


From 50192f40a41897fd263e28c3454bca8348d76aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 13/31] fix: the default DigitalFilter does not read an empty
 buffer

---
 src/dsp/digitalfilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..8b5d95a 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -14,7 +14,8 @@ namespace DSP
 {
 
 DigitalFilter::DigitalFilter(void)
-  :fFilterDcGain(1.0f)
+  :fFilterBufferIn(1u)
+  ,fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
 {}
 
-- 
2.43.0


From 4cd5745bb486495ab145238fe8ea0265c1373b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 14/31] fix: PIDController::computeFeedback uses the given
 period

---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From 9501d8f015f2da3e7d62aeb698473a9c20950ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 15/31] fix: PIDController::initialize checks its parameters
 before using them

---
 src/dsp/pidcontroller.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 21d6948..68336da 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -69,6 +69,13 @@ void PIDController::initialize(const float pKp,
                                const float pStaticOffset,
                                const float pPeriod)
 {
+  xCheckPositif(pKp);
+  xCheckPositif(pKv);
+  xCheckPositif(pKi);
+  xCheckPositif(pThreshold);
+  xCheckPositif(pStaticOffset);
+  xCheckStriclyPositif(pPeriod);
+
   fKp = pKp;
   fKv = pKv;
   fKi = pKi;
@@ -76,7 +83,6 @@ void PIDController::initialize(const float pKp,
   fStaticOffset = pStaticOffset;
   fPeriod       = pPeriod;
 
-  xCheckData();
   xResetParameters();
 }
 
-- 
2.43.0


From e8b04a39c9cb8e2bee64d0b9387986b287fc0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 16/31] fix: RobotTree only refuses mimicking relations which
 make a loop

---
 src/scenegraph/urdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..2530d96 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -397,7 +397,7 @@ bool RobotTreeP::transitively_mimics(const Joints &joints,
   BOOST_FOREACH(ptree::const_iterator joint,
                 joints.get<Mimic>().equal_range(rhs_joint_name)) {
     if ((joint == lhs_joint_it) ||
-        transitively_mimics(joints, joint, rhs_joint_name))
+        transitively_mimics(joints, lhs_joint_it, ::name_it(joint)))
       return true;
   }
   return false;
-- 
2.43.0


From 0bd777dc5950a1656c3437890d4c09f9a8af1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 17/31] fix: RobotTree refuses kinematic loops detached from
 the root

---
 src/scenegraph/urdf.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 2530d96..b9af48d 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -484,6 +484,21 @@ RobotTreeP::RobotTreeP(ptree &robot) : robot(robot) {
     }
   }
   root_link = *root_links.begin();
+  // Each link but the root has exactly one parent joint. Those which cannot be
+  // reached from the root are in a loop, or hang from a loop.
+  size_t reached_links = 0;
+  std::vector<std::string> links_to_visit{root_link};
+  while (!links_to_visit.empty()) {
+    const std::string link = links_to_visit.back();
+    links_to_visit.pop_back();
+    ++reached_links;
+    BOOST_FOREACH (ptree::const_iterator joint,
+                   joints.get<ParentLink>().equal_range(link)) {
+      links_to_visit.push_back(::child_link_it(joint));
+    }
+  }
+  if (reached_links != links.size())
+    throw std::runtime_error("there is a loop in the kinematic tree");
 }
 
 void RobotTreeP::rm_root_joint() {
-- 
2.43.0


From 6088ef0b94aff85eef44428b725948ec155947c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 18/31] fix: joints are still visited in the file order after
 define_as_root_link

---
 src/scenegraph/urdf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index b9af48d..bb088b2 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -698,6 +698,10 @@ void RobotTreeP::define_as_root_link(const std::string &link_name) {
     bool add_prune_exception = it + 1 != joints_path.rend();
     flip_root_link_joint(*it, add_prune_exception);
   }
+  // The parent link index lists each flipped joint after its new siblings.
+  // Rebuild the indexes from the original joint ordering.
+  Joints ordered_joints(joints.begin(), joints.end());
+  joints.swap(ordered_joints);
 }
 
 void RobotTreeP::walk_joint(RobotTree::JointConstVisitor &vis,
-- 
2.43.0


From f280ed10f29ae9e280c0754d960c5b65849b8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 19/31] fix: moving a link frame does not abort when an
 element's new pose rounds to the identity

---
 src/scenegraph/urdf.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index bb088b2..a82abb8 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -547,7 +547,12 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
   auto const_rhs_parent = const_cast<const ptree *>(rhs_parent);
 
   Pose rhs = Pose::from_ptree(const_rhs_parent->get_child_optional("origin"));
-  if (rhs == ilhs) {
+  boost::optional<ptree> new_origin;
+  if (rhs != ilhs) {
+    // Note: because of rounding, the product may be the identity here too.
+    new_origin = (lhs * rhs).to_ptree();
+  }
+  if (!new_origin) {
     if (noprune) {
       // instead of removing the element, empty it.
       // Wrt to URDF, this has the same meaning (identity transform)
@@ -560,8 +565,6 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
       rhs_parent->erase("origin");
     }
   } else {
-    boost::optional<ptree> new_origin = (lhs * rhs).to_ptree();
-    assert(new_origin);
     rhs_parent->put_child("origin", *new_origin);
   }
 }
-- 
2.43.0


From 4184f89c8701ec66d367c53c952842e256362b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 20/31] fix: squashInertial expresses the second inertia in the
 basis of the first one

---
 almath/scenegraph/urdfeigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..16ff378 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
-- 
2.43.0


From c11eefb84d0ede5f3e4258861c4c115d930b436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 21/31] fix: urdfInertialToEigen expresses the inertia in the
 link basis

---
 almath/scenegraph/urdfeigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 16ff378..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From 27ab78254cd36fc1e7ad57c3a5af8b3895d2b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 22/31] fix: squashInertial does not return NaN when both
 masses are null

---
 almath/scenegraph/urdfeigen.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 0c49c01..e54af0b 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -98,8 +98,14 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
   mass_c = mass_a + mass_b;
 
   // define the new frame
-  pose_c.translation() =
-      (mass_a * pose_a.translation() + mass_b * pose_b.translation()) / mass_c;
+  if (mass_c == Scalar(0)) {
+    // the center of mass is undefined
+    pose_c.translation() = pose_a.translation();
+  } else {
+    pose_c.translation() =
+        (mass_a * pose_a.translation() + mass_b * pose_b.translation()) /
+        mass_c;
+  }
   pose_c.linear() = pose_a.linear();
 
   // add inertia from a
-- 
2.43.0


From 5887718e8adcfbfdd0f1e4f265be2848adce72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 23/31] fix: squashing a mass into a massless link replaces the
 pose of the inertial

---
 src/scenegraph/urdf.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index a82abb8..e15ae7a 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -837,7 +837,6 @@ std::vector<std::string> makeContinuousJointsFixed(RobotTree &parser) {
 // internal helper overload
 void squashJointMass(RobotTree &parser, ptree &joint_pt) {
   typedef Eigen::Matrix3d Matrix3;
-  typedef Eigen::Vector3d Vector3;
   typedef Eigen::Transform<double, 3, Eigen::AffineCompact, Eigen::DontAlign>
       EPose;
 
@@ -882,17 +881,17 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     new_inertial.put("inertia.<xmlattr>.iyz", new_inertia(1, 2));
     new_inertial.put("inertia.<xmlattr>.izz", new_inertia(2, 2));
   }
-  if (new_inertial_pose.translation() != Vector3::Zero()) {
-    Array3d xyz = {{new_inertial_pose.translation()[0],
-                    new_inertial_pose.translation()[1],
-                    new_inertial_pose.translation()[2]}};
-    new_inertial.put("origin.<xmlattr>.xyz", xyz, urdf::Array3dTranslator());
-  }
-  if (new_inertial_pose.linear() != Matrix3::Identity()) {
-    new_inertial.put("origin.<xmlattr>.rpy",
-                     Math::urdfRpyFromEigenMatrix3(new_inertial_pose.linear()),
-                     urdf::Array3dTranslator());
-  }
+  const Array3d xyz = {{new_inertial_pose.translation()[0],
+                        new_inertial_pose.translation()[1],
+                        new_inertial_pose.translation()[2]}};
+  Array3d rpy = {{0, 0, 0}};
+  if (new_inertial_pose.linear() != Matrix3::Identity())
+    rpy = Math::urdfRpyFromEigenMatrix3(new_inertial_pose.linear());
+  // replace the origin copied from the child inertial, if any
+  if (boost::optional<ptree> new_origin = Pose(xyz, rpy).to_ptree())
+    new_inertial.put_child("origin", *new_origin);
+  else
+    new_inertial.erase("origin");
   parent_pt.put_child("inertial", new_inertial);
   child_pt.erase("inertial");
 }
-- 
2.43.0


From 9f1244562a83e97e4f09ee8f550e87348ab10749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 24/31] fix: transform_filenames also visits the meshes of the
 collision elements

---
 src/scenegraph/urdf.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index e15ae7a..46110e5 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -1030,6 +1030,17 @@ void transform_filenames(
           apply_op(*texture);
       }
     }
+    auto collisions = link.equal_range("collision");
+    for (ptree &collision: boost::adaptors::values(collisions)) {
+      boost::optional<ptree &> geometry =
+          collision.get_child_optional("geometry");
+      if (!geometry)
+        continue;
+      auto meshes = geometry->equal_range("mesh");
+      for (ptree &mesh: boost::adaptors::values(meshes)) {
+        apply_op(mesh);
+      }
+    }
   }
 }
 }
-- 
2.43.0


From 9ee93e2f8065195180aae7705fa038b424d3ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 25/31] fix: buildRigidBodySystemFromUrdf does not explore the
 children of a massless root

---
 src/scenegraph/urdfrigidbodysystemtraverser.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/scenegraph/urdfrigidbodysystemtraverser.cpp b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
index 70a673a..e91e27b 100644
--- a/src/scenegraph/urdfrigidbodysystemtraverser.cpp
+++ b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
@@ -88,10 +88,9 @@ bool UrdfRigidBodySystemTraverser::discover(const urdf::ptree &joint_el) {
       break;
     }
   }
-  _discover(joint.parent_link(), joint.child_link(),
-            Math::toEigenTransform(joint.origin()), type,
-            parser.link(joint.child_link()), joint.name());
-  return true;
+  return _discover(joint.parent_link(), joint.child_link(),
+                   Math::toEigenTransform(joint.origin()), type,
+                   parser.link(joint.child_link()), joint.name());
 }
 
 void buildRigidBodySystemFromUrdf(
@@ -102,10 +101,10 @@ void buildRigidBodySystemFromUrdf(
   if (make_continuous_joints_fixed) makeContinuousJointsFixed(parser);
   makeMasslessJointsFixed(parser);
   UrdfRigidBodySystemTraverser visitor(builder, parser);
-  visitor._discover("", parser.root_link(), Pose::Identity(),
-                    Builder::JointType::FreeFlyer,
-                    parser.link(parser.root_link()));
-  parser.traverse_joints(visitor);
+  if (visitor._discover("", parser.root_link(), Pose::Identity(),
+                        Builder::JointType::FreeFlyer,
+                        parser.link(parser.root_link())))
+    parser.traverse_joints(visitor);
 }
 
 void buildRigidBodySystemFromUrdf(
-- 
2.43.0


From 879eff7c5df092c88f3a78df1f1fd5b573c67d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 26/31] fix: keys and labels are found and kept sorted among
 other elements

---
 src/scenegraph/qianim.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 23f3697..46f92c6 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -7,6 +7,7 @@
 #include <almath/scenegraph/qianim.h>
 #include <boost/property_tree/ptree.hpp>
 #include <boost/range/adaptor/map.hpp>
+#include <algorithm>
 #include <sstream>
 
 namespace AL {
@@ -165,26 +166,33 @@ void put_unit(ptree &pt, Unit unit) {
 }
 
 // private
-bool key_comp(const ptree::value_type &key, int frame) {
-  return (key.first != "Key") || (Key::get_frame(key.second) < frame);
+// return an iterator to the first Key whose frame is not less than the given
+// one, or to the end. Keys may be interleaved with other nodes (attributes,
+// comments, foreign elements), hence no dichotomy can be used.
+template <typename ptree_ref>
+auto find_key_impl(ptree_ref pt, int frame) -> decltype(pt.begin()) {
+  return std::find_if(pt.begin(), pt.end(),
+                      [frame](const ptree::value_type &val) {
+    return Key::is_key(val) && !(Key::get_frame(val.second) < frame);
+  });
 }
 
 optional<ptree &> get_key_optional(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key_impl<ptree &>(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<ptree &>();
 }
 
 optional<const ptree &> get_key_optional(const ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key_impl<const ptree &>(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<const ptree &>();
 }
 
 ptree &require_key(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key_impl<ptree &>(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
@@ -195,12 +203,6 @@ ptree &require_key(ptree &pt, int frame) {
 
 namespace Label {
 
-// private
-bool label_comp(int frame, const ptree::value_type &label) {
-  return (label.first == "Label") && (frame < Label::get_frame(label.second));
-}
-
-
 bool is_label(const ptree::value_type &val) {
   return val.first == "Label";
 }
@@ -217,7 +219,10 @@ bool is_labels(const ptree::value_type &val) {
 }
 
 ptree &add_label(ptree &pt, int frame, const std::string value) {
-  auto it = std::upper_bound(pt.begin(), pt.end(), frame, Label::label_comp);
+  auto it = std::find_if(pt.begin(), pt.end(),
+                         [frame](const ptree::value_type &val) {
+    return Label::is_label(val) && (frame < Label::get_frame(val.second));
+  });
   ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
   Key::put_frame(newkey, frame);
   return newkey;
-- 
2.43.0


From 34a26983d958ada9cad35d4634ff5848f8c5f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 27/31] fix: a negative frame is refused before a key or label
 is inserted

---
 src/scenegraph/qianim.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 46f92c6..f1da246 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -195,9 +195,9 @@ ptree &require_key(ptree &pt, int frame) {
   auto it = find_key_impl<ptree &>(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
-  ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
+  ptree newkey;
   Key::put_frame(newkey, frame);
-  return newkey;
+  return pt.insert(it, std::make_pair("Key", newkey))->second;
 }
 } // namespace ActuatorCurve
 
@@ -219,13 +219,13 @@ bool is_labels(const ptree::value_type &val) {
 }
 
 ptree &add_label(ptree &pt, int frame, const std::string value) {
+  ptree newlabel{value};
+  Key::put_frame(newlabel, frame);
   auto it = std::find_if(pt.begin(), pt.end(),
                          [frame](const ptree::value_type &val) {
     return Label::is_label(val) && (frame < Label::get_frame(val.second));
   });
-  ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
-  Key::put_frame(newkey, frame);
-  return newkey;
+  return pt.insert(it, std::make_pair("Label", newlabel))->second;
 }
 } // namespace Labels
 
-- 
2.43.0


From 27a2dedf046f15517470fafb838da490216434aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 28/31] fix: a vertex refused by the mesh leaves no position
 behind

---
 src/scenegraph/mesh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scenegraph/mesh.cpp b/src/scenegraph/mesh.cpp
index 15ace48..bdd40dd 100644
--- a/src/scenegraph/mesh.cpp
+++ b/src/scenegraph/mesh.cpp
@@ -137,10 +137,18 @@ void Mesh::vertex(size_t positionIndex) {
 }
 
 void Mesh::vertex(float x, float y, float z) {
-  // check mode before calling position to avoid side effect
+  // check mode, normal and texture coordinate before calling position to avoid
+  // side effect
   if (!_currentMode)
     throw std::runtime_error(
         "MeshData::vertex called outside MeshData::begin/end calls pair");
+  if (_currentNormal == NO_INDEX)
+    throw std::runtime_error(
+        "MeshData::vertex called while the current normal is undefined");
+  if (_withTexCoords && _currentTexCoord == NO_INDEX)
+    throw std::runtime_error(
+        "MeshData::vertex called while the current texture coordinate is "
+        "undefined");
   vertex(position(x, y, z));
 }
 
-- 
2.43.0


From 89e41b5d232810d970d3c947dc2dde55fd08ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 29/31] fix: meshes with texture coordinates are refused by
 both SceneBuilder::add

---
 src/scenegraph/scenebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/scenebuilder.cpp b/src/scenegraph/scenebuilder.cpp
index d9070f4..b60365c 100644
--- a/src/scenegraph/scenebuilder.cpp
+++ b/src/scenegraph/scenebuilder.cpp
@@ -44,7 +44,7 @@ void SceneBuilder::add(const Mesh &mesh, const Eigen::Affine3f &tf) {
 
 void SceneBuilder::add(const Mesh &mesh, const Math::Transform &tf) {
   Eigen::Map<const Eigen::Matrix<float, 3, 4, Eigen::RowMajor> > m(&tf.r1_c1);
-  xAddMesh(mesh, Eigen::Affine3f(m));
+  add(mesh, Eigen::Affine3f(m));
 }
 
 void SceneBuilder::add(const Math::Sphere &shape, const Math::Transform &tf) {
-- 
2.43.0


From 411aa715888b6722f4fe95b82254470f927ca298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 30/31] fix: Collada indices above one million are not rounded

---
 src/scenegraph/colladabuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index 7ca42b2..b37e083 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -12,7 +12,7 @@ namespace {
 template <typename T>
 std::string toString(const std::vector<T> &data) {
   std::ostringstream ss;
-  std::copy(data.begin(), data.end(), std::ostream_iterator<float>(ss, " "));
+  std::copy(data.begin(), data.end(), std::ostream_iterator<T>(ss, " "));
   return ss.str();
 }
 }
-- 
2.43.0


From 7873f8d3a2709eaf9cc59f6de3c4b0b1512a8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 31/31] fix: close the parenthesis of the text of a Velocity6D
 in scripts

---
 almath.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath.i b/almath.i
index 073fd05..ac45fa2 100644
--- a/almath.i
+++ b/almath.i
@@ -379,7 +379,7 @@ namespace std {
 %extend AL::Math::Velocity6D {
    char *__repr__() {
        static char tmp[1024];
-       sprintf(tmp, "Velocity6D(xd=%g, yd=%g, zd=%g, wxd=%g, wyd=%g, wzd=%g",
+       sprintf(tmp, "Velocity6D(xd=%g, yd=%g, zd=%g, wxd=%g, wyd=%g, wzd=%g)",
                $self->xd,  $self->yd,  $self->zd,
                $self->wxd, $self->wyd, $self->wzd);
        return tmp;
-- 
2.43.0

