From bfb2b4cb9fd508ae7ed5e3f8a448704df80ae1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:21 +0000
Subject: [PATCH 1/8] fix: hand over the pivot row in TridiagonalSolveOpenMP
 when jMin is the last row of rank 0

The forward sweep only stores hand-over data for rows after jMin, so with a
first share of two rows and jMin = 1 the next rank eliminated with stale data.
---
 src/vmecpp/cpp/vmecpp/common/util/util.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/util/util.cc b/src/vmecpp/cpp/vmecpp/common/util/util.cc
index 37cb90f..0e733b5 100644
--- a/src/vmecpp/cpp/vmecpp/common/util/util.cc
+++ b/src/vmecpp/cpp/vmecpp/common/util/util.cc
@@ -156,6 +156,17 @@ void TridiagonalSolveOpenMP(
         m_cr[k][idx_mn] /= m_dr[idx_mn];
         m_cz[k][idx_mn] /= m_dz[idx_mn];
       }  // k
+
+      if (jMin[mn] == nsMaxF - 1) {
+        // jMin is the last row of this rank, so the forward sweep below does
+        // not visit it: leave handover data for rank myid+1 here
+        m_handover_ar[mn] = m_ar[idx_mn];
+        m_handover_az[mn] = m_az[idx_mn];
+        for (int k = 0; k < nRHS; ++k) {
+          m_handover_cr[k][mn] = m_cr[k][idx_mn];
+          m_handover_cz[k][mn] = m_cz[k][idx_mn];
+        }  // k
+      }
     }  // mn
   }  // myid == 0
 
-- 
2.43.0


From be068eef10976cd9c617900da3ebf05924d4ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:06 +0000
Subject: [PATCH 2/8] fix: interpolate line_segment profiles on the segment
 that contains x

std::lower_bound returns the first knot not below x, which was then used as the
lower end of the segment: values were extrapolated from the next segment, and
the whole last segment was flattened to the last value.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..e02701d 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1055,20 +1055,22 @@ double RadialProfiles::evalLineSegment(const Eigen::VectorXd& splineKnots,
   if (n < 2 || n != static_cast<int>(splineValues.size())) {
     return 0.0;
   }
-  auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
-  if (it >= (splineKnots.end() - 1)) {
-    // x is out of bounds (or x1 = it+1 would be out of bounds)
-    return splineValues[n - 1];
-  }
+  // first knot beyond x
+  auto it = std::upper_bound(splineKnots.begin(), splineKnots.end(), x);
   if (it == splineKnots.begin()) {
     // x is below the first knot
     return splineValues[0];
   }
-  const double x0 = *it;
-  const double x1 = *(it + 1);
-  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it));
+  if (it == splineKnots.end()) {
+    // x is at or above the last knot
+    return splineValues[n - 1];
+  }
+  const int ihigh = static_cast<int>(std::distance(splineKnots.begin(), it));
+  const int ilow = ihigh - 1;
+  const double x0 = splineKnots[ilow];
+  const double x1 = splineKnots[ihigh];
   const double y0 = splineValues[ilow];
-  const double y1 = splineValues[ilow + 1];
+  const double y1 = splineValues[ihigh];
   const double t = (x - x0) / (x1 - x0);
   return (1.0 - t) * y0 + t * y1;
 }
-- 
2.43.0


From 0311ecc3f7c50a83bc53d6cc7d5955845fe2f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:29 +0000
Subject: [PATCH 3/8] fix: integrate line_segment_ip profiles up to x

The segment containing x was integrated as if its end value were reached at x,
the constant continuation in front of the first knot was left out, and for x
beyond the last knot one element past the end of the knots was read.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 34 +++++++------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index e02701d..00c6fa4 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1083,38 +1083,30 @@ double RadialProfiles::evalLineSegmentIntegrated(
     return 0.0;
   }
 
+  // trapezoidal rule, exact for a linear segment
   auto integrate_segment = [](double x0, double x1, double y0, double y1) {
-    const double m = (y1 - y0) / (x1 - x0);
-    const double b = y0 - m * x0;
-    return m * 0.5 * (x1 * x1 - x0 * x0) + b * (x1 - x0);
+    return 0.5 * (y0 + y1) * (x1 - x0);
   };
 
-  double xi = x;
-  double result = 0.0;
-
-  if (xi <= splineKnots[0]) {
-    result += integrate_segment(0.0, xi, splineValues[0],
-                                evalLineSegment(splineKnots, splineValues, xi));
-    return result;
+  const double y = evalLineSegment(splineKnots, splineValues, x);
+  if (x <= splineKnots[0]) {
+    return integrate_segment(0.0, x, splineValues[0], y);
   }
 
+  // constant continuation between 0 and the first knot
+  double result =
+      integrate_segment(0.0, splineKnots[0], splineValues[0], splineValues[0]);
+
   int idx = 0;
-  while (idx < n - 1 && xi > splineKnots[idx + 1]) {
+  while (idx < n - 1 && x > splineKnots[idx + 1]) {
     result += integrate_segment(splineKnots[idx], splineKnots[idx + 1],
                                 splineValues[idx], splineValues[idx + 1]);
     ++idx;
   }
 
-  const double x0 = splineKnots[idx];
-  const double x1 = std::min(xi, splineKnots[idx + 1]);
-  const double y0 = splineValues[idx];
-  const double y1 = splineValues[idx + 1];
-  result += integrate_segment(x0, x1, y0, y1);
-
-  if (xi > splineKnots[n - 1]) {
-    result += integrate_segment(splineKnots[n - 1], xi, splineValues[n - 1],
-                                evalLineSegment(splineKnots, splineValues, xi));
-  }
+  // part of the segment that contains x,
+  // or constant continuation beyond the last knot
+  result += integrate_segment(splineKnots[idx], x, splineValues[idx], y);
 
   return result;
 }
-- 
2.43.0


From 6af460e16f4c2203ab2ba418a2c4ac0488b172a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:58 +0000
Subject: [PATCH 4/8] fix: scale the arctangents of the sum_atan profile by
 2/pi

The value at the edge is the sum of the amplitudes (as in Fortran VMEC), which is
the limit of the interior formula only if every arctangent carries a factor 2/pi;
without it the profile was off by pi/2 and jumped at s=1.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 00c6fa4..1bf3281 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -692,25 +692,31 @@ double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
       ret += coeffs[17];
     }
   } else {
+    // the factor 2/pi makes every term tend to its coefficient for x -> 1
     if (coeffs.size() >= 5) {
-      ret += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
-                                   std::pow(1 - x, coeffs[4]));
+      ret += coeffs[1] * M_2_PI *
+             std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
+                       std::pow(1 - x, coeffs[4]));
     }
     if (coeffs.size() >= 9) {
-      ret += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
-                                   std::pow(1 - x, coeffs[8]));
+      ret += coeffs[5] * M_2_PI *
+             std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
+                       std::pow(1 - x, coeffs[8]));
     }
     if (coeffs.size() >= 13) {
-      ret += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
-                                   std::pow(1 - x, coeffs[12]));
+      ret += coeffs[9] * M_2_PI *
+             std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
+                       std::pow(1 - x, coeffs[12]));
     }
     if (coeffs.size() >= 17) {
-      ret += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
-                                    std::pow(1 - x, coeffs[16]));
+      ret += coeffs[13] * M_2_PI *
+             std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
+                       std::pow(1 - x, coeffs[16]));
     }
     if (coeffs.size() >= 21) {
-      ret += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
-                                    std::pow(1 - x, coeffs[20]));
+      ret += coeffs[17] * M_2_PI *
+             std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
+                       std::pow(1 - x, coeffs[20]));
     }
   }
 
-- 
2.43.0


From f9f7fe6ae4474fcec730143ee2a3c684848037da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 5/8] fix: read bsubs at the (k, l) grid point in the lasym
 branch of DecomposeCovariantBBySymmetry

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..904288f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2064,11 +2064,11 @@ vmecpp::SymmetryDecomposedCovariantB vmecpp::DecomposeCovariantBBySymmetry(
     // bs_a(v,u) = .5*( bs(v,u) + bs(-v,-u) )     ! * COS(mu - nv)
     for (int jF = 0; jF < vmec_internal_results.num_full; ++jF) {
       for (int kl = 0; kl < vmec_internal_results.nZnT_reduced; ++kl) {
-        const int source_index = jF * s.nZnT + kl;
-
         const int k = kl / s.nThetaReduced;
         const int l = kl % s.nThetaReduced;
 
+        const int source_index = jF * s.nZnT + (k * s.nThetaEven + l);
+
         const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
         const int k_reversed = (s.nZeta - k) % s.nZeta;
         const int kl_reversed = k_reversed * s.nThetaEven + l_reversed;
-- 
2.43.0


From 71332e7932883a3fa68f131b6ce1d647819d0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 6/8] fix: extend the tangential derivatives of B_u, B_v to the
 full theta interval for lasym in LowPassFilterCovariantB

---
 .../output_quantities/output_quantities.cc    | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 904288f..53ae7e2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2150,7 +2150,6 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
   covariant_b_derivatives.bsubsv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_full, s.nZnT);
 
-  // TODO(jons): no split into (non-)stellarator-symmetric contributions?
   covariant_b_derivatives.bsubuv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_half, s.nZnT);
   covariant_b_derivatives.bsubvu =
@@ -2169,11 +2168,17 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
       m_vmec_internal_results.num_half * s.nZnT, 0.0);
   std::vector<double> bsubv_filtered_s(
       m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubuv_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubvu_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
   std::vector<double> bsubu_filtered_a;
   std::vector<double> bsubv_filtered_a;
+  std::vector<double> bsubuv_a;
+  std::vector<double> bsubvu_a;
   if (s.lasym) {
     bsubu_filtered_a.resize(m_vmec_internal_results.num_half * s.nZnT);
     bsubv_filtered_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubuv_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubvu_a.resize(m_vmec_internal_results.num_half * s.nZnT);
   }
 
   // FOURIER LOW-PASS FILTER bsubs
@@ -2353,13 +2358,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
             const double tsinm1 = t.sinmum[idx_ml] * t.cosnv[idx_kn];
             const double tsinm2 = t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            covariant_b_derivatives.bsubvu(target_index) +=
-                tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
+            bsubvu_s[target_index] += tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
 
             const double tsinn1 = t.cosmu[idx_ml] * t.sinnvn[idx_kn];
             const double tsinn2 = t.sinmu[idx_ml] * t.cosnvn[idx_kn];
-            covariant_b_derivatives.bsubuv(target_index) +=
-                tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
+            bsubuv_s[target_index] += tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
 
             if (s.lasym) {
               const double tsin1 = t.sinmu[idx_ml] * t.cosnv[idx_kn];
@@ -2371,13 +2374,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
               const double tcosm1 = t.cosmum[idx_ml] * t.cosnv[idx_kn];
               const double tcosm2 = t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              covariant_b_derivatives.bsubvu(target_index) +=
-                  tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
+              bsubvu_a[target_index] += tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
 
               const double tcosn1 = t.sinmu[idx_ml] * t.sinnvn[idx_kn];
               const double tcosn2 = t.cosmu[idx_ml] * t.cosnvn[idx_kn];
-              covariant_b_derivatives.bsubuv(target_index) +=
-                  tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
+              bsubuv_a[target_index] += tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
             }  // lasym
           }  // l
         }  // k
@@ -2404,6 +2405,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
               bsubu_filtered_s[source_index] + bsubu_filtered_a[source_index];
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index] + bsubv_filtered_a[source_index];
+
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_s[source_index] + bsubuv_a[source_index];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_s[source_index] + bsubvu_a[source_index];
         }  // l
         for (int l = s.nThetaReduced; l < s.nThetaEven; ++l) {
           const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
@@ -2417,6 +2423,14 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index_reversed] -
               bsubv_filtered_a[source_index_reversed];
+
+          // tangential derivatives have opposite parity
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_a[source_index_reversed] -
+              bsubuv_s[source_index_reversed];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_a[source_index_reversed] -
+              bsubvu_s[source_index_reversed];
         }  // l
       }  // k
     }  // jH
@@ -2427,6 +2441,8 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
         const int idx_kl = jH * s.nZnT + kl;
         m_vmec_internal_results.bsubu(idx_kl) = bsubu_filtered_s[idx_kl];
         m_vmec_internal_results.bsubv(idx_kl) = bsubv_filtered_s[idx_kl];
+        covariant_b_derivatives.bsubuv(idx_kl) = bsubuv_s[idx_kl];
+        covariant_b_derivatives.bsubvu(idx_kl) = bsubvu_s[idx_kl];
       }  // kl
     }  // jH
   }
-- 
2.43.0


From 06ae07ae2f698bb1988c6789adc0cc87fb265b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 7/8] fix: use the nThetaEff stride for the inboard point in
 ComputeThreed1GeometricMagneticQuantities

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 53ae7e2..0e89cd0 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3921,7 +3921,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
                               vmec_internal_results.r_o(index_outboard);
 
     const int index_inboard =
-        ((fc.ns - 1) * s.nZeta + k) * s.nThetaReduced + (s.nThetaReduced - 1);
+        ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + (s.nThetaReduced - 1);
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-- 
2.43.0


From 6461b8042ee01cb3de460df2b3a5005e35d59b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:34 +0000
Subject: [PATCH 8/8] fix: size waist and height for two symmetry planes
 whenever nZeta > 1 (axisymmetric runs with nzeta > 1 wrote past their end)

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 0e89cd0..03624fd 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3904,7 +3904,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
   // Compute Waist thickness and height in \f$\varphi = 0, \pi\f$ symmetry
   // planes.
   int symmetry_planes_count = 1;
-  if (s.ntor > 0) {
+  if (s.nZeta > 1) {
     symmetry_planes_count = 2;
   }
   result.waist = VectorXd::Zero(symmetry_planes_count);
-- 
2.43.0

