From b40cd9ae7c7b6ab6965f7e9bd1b2f3315a7326f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 1/7] fix: Gauss-Jacobi rules are NaN when alpha + beta = -1

The recurrence coefficient of index 0 and the total weight both contain the
factor (1 + alpha + beta), which cancels analytically but was evaluated as 0/0.
---
 src/jacobi/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..0ec3fc6 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -113,6 +113,12 @@ impl GaussJacobi {
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
                 let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                if idx == 0 {
+                    // The factor (1 + alpha + beta) cancels analytically here. Evaluating the general
+                    // expression would result in 0/0 when alpha + beta = -1.
+                    return 2.0 / denom_sum
+                        * sqrt((1.0 + alpha.get()) * (1.0 + beta.get()) / (denom_sum + 1.0));
+                }
                 2.0 / denom_sum
                     * sqrt(
                         idx_p1
@@ -125,8 +131,7 @@ impl GaussJacobi {
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(alpha.get() + beta.get() + 2.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 51a16bcab5376e070b87df64b6319c80fe04682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 2/7] fix: Gauss-Jacobi loses accuracy and leaves [-1, 1] when
 alpha and beta approach -1

---
 src/jacobi/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 0ec3fc6..8b01a20 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -84,13 +84,17 @@ impl GaussJacobi {
             _ => (),
         }
 
+        // When both parameters are close to -1 the sum `2.0 + alpha + beta` loses all its digits,
+        // while this one is accurate.
+        let sum_p2 = (1.0 + alpha.get()) + (1.0 + beta.get());
+
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
-            let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
+            let node = (beta.get() - alpha.get()) / sum_p2;
             let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0);
+                / gamma(sum_p2);
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -102,17 +106,17 @@ impl GaussJacobi {
             deg,
             |idx| {
                 if idx == 0 {
-                    (beta.get() - alpha.get()) / (2.0 + beta.get() + alpha.get())
+                    (beta.get() - alpha.get()) / sum_p2
                 } else {
-                    let denom_sum = 2.0 * (idx as f64) + alpha.get() + beta.get();
-                    (beta.get() * beta.get() - alpha.get() * alpha.get())
+                    let denom_sum = 2.0 * (idx as f64 - 1.0) + sum_p2;
+                    (beta.get() - alpha.get()) * (beta.get() + alpha.get())
                         / (denom_sum * (denom_sum + 2.0))
                 }
             },
             |idx| {
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
-                let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                let denom_sum = 2.0 * idx_f64 + sum_p2;
                 if idx == 0 {
                     // The factor (1 + alpha + beta) cancels analytically here. Evaluating the general
                     // expression would result in 0/0 when alpha + beta = -1.
@@ -124,14 +128,14 @@ impl GaussJacobi {
                         idx_p1
                             * (idx_p1 + alpha.get())
                             * (idx_p1 + beta.get())
-                            * (idx_p1 + alpha.get() + beta.get())
+                            * (idx_f64 - 1.0 + sum_p2)
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0),
+                / gamma(sum_p2),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 1722a28e10bb51f55c6dc03038314d3ae86c7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 3/7] fix: deserializing FiniteAboveNegOneF64 accepts values
 outside its domain

---
 src/data_api.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..e0eeca6 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -38,7 +38,26 @@ pub type Weight = f64;
     )
 )]
 /// A wrapper around an [`f64`] that ensures the value is greater than -1.0, finite, and not [`NAN`](f64::NAN).
-pub struct FiniteAboveNegOneF64(f64);
+pub struct FiniteAboveNegOneF64(
+    #[cfg_attr(
+        feature = "serde",
+        serde(deserialize_with = "deserialize_finite_above_neg_one")
+    )]
+    f64,
+);
+
+/// Deserializes an [`f64`] and rejects it if it is not a valid [`FiniteAboveNegOneF64`].
+#[cfg(feature = "serde")]
+fn deserialize_finite_above_neg_one<'de, D>(deserializer: D) -> Result<f64, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let value = <f64 as serde::Deserialize>::deserialize(deserializer)?;
+    match FiniteAboveNegOneF64::new(value) {
+        Some(valid) => Ok(valid.get()),
+        None => Err(serde::de::Error::custom(InfNanNegOneOrLessError)),
+    }
+}
 
 impl fmt::Display for FiniteAboveNegOneF64 {
     #[inline]
-- 
2.43.0


From 3ffa61bb1fe92d9fb23931b749c42b0eb9cd5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 4/7] fix: rkyv traits are missing on GaussChebyshevSecondKind
 and the Newton-Cotes rules

---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 4 ++++
 src/simpson/mod.rs   | 4 ++++
 src/trapezoid/mod.rs | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..6ed0d75 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -138,6 +138,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..45576c0 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,10 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..938622a 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,10 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..a443177 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,10 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0


From b34373983f504f2586c2f2270627553fe2201376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 5/7] fix: gamma overflows just below the largest argument with
 a representable result

---
 src/math.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index afa59e8..0ec12ea 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -131,7 +131,15 @@ pub(crate) fn gamma(x: f64) -> f64 {
             .skip(1)
             .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
 
-        s * TWO_SQRT_E_OVER_PI * pow((x - 0.5 + GAMMA_R) / E, x - 0.5)
+        let base = (x - 0.5 + GAMMA_R) / E;
+        let power = pow(base, x - 0.5);
+        if power.is_finite() {
+            s * TWO_SQRT_E_OVER_PI * power
+        } else {
+            // The power overflows before the gamma function does, so apply it in two halves.
+            let half_power = pow(base, 0.5 * (x - 0.5));
+            s * TWO_SQRT_E_OVER_PI * half_power * half_power
+        }
     }
 }
 
-- 
2.43.0


From 1477be7f60780baa4845459243c0d793fd536792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 6/7] fix: Gaussian rules sample at infinity when the sum of
 the finite bounds overflows

---
 src/chebyshev/mod.rs | 4 ++--
 src/jacobi/mod.rs    | 2 +-
 src/legendre/mod.rs  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index 6ed0d75..b82648c 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -59,7 +59,7 @@ impl GaussChebyshevFirstKind {
     }
 
     fn argument_transformation(x: f64, a: f64, b: f64) -> f64 {
-        0.5 * ((b - a) * x + (b + a))
+        0.5 * ((b - a) * x) + f64::midpoint(a, b)
     }
 
     fn scale_factor(a: f64, b: f64) -> f64 {
@@ -189,7 +189,7 @@ impl GaussChebyshevSecondKind {
     }
 
     fn argument_transformation(x: f64, a: f64, b: f64) -> f64 {
-        0.5 * ((b - a) * x + (b + a))
+        0.5 * ((b - a) * x) + f64::midpoint(a, b)
     }
 
     fn scale_factor(a: f64, b: f64) -> f64 {
diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8b01a20..7bd07f4 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -153,7 +153,7 @@ impl GaussJacobi {
     }
 
     fn argument_transformation(x: f64, a: f64, b: f64) -> f64 {
-        0.5 * ((b - a) * x + (b + a))
+        0.5 * ((b - a) * x) + f64::midpoint(a, b)
     }
 
     fn scale_factor(a: f64, b: f64) -> f64 {
diff --git a/src/legendre/mod.rs b/src/legendre/mod.rs
index 085b790..b3b466b 100644
--- a/src/legendre/mod.rs
+++ b/src/legendre/mod.rs
@@ -111,7 +111,7 @@ impl GaussLegendre {
     }
 
     fn argument_transformation(x: f64, a: f64, b: f64) -> f64 {
-        0.5 * ((b - a) * x + (b + a))
+        0.5 * ((b - a) * x) + f64::midpoint(a, b)
     }
 
     fn scale_factor(a: f64, b: f64) -> f64 {
-- 
2.43.0


From 47b086c615cdfd3774a0618642d8912da4a971b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 7/7] fix: Simpson midpoints are sampled at infinity when twice
 the width overflows

---
 src/simpson/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 938622a..8726fa3 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -89,13 +89,13 @@ impl Simpson {
         let sum_over_midpoints: f64 = self
             .iter()
             .skip(1)
-            .map(|node| integrand(a + (2.0 * node - 1.0) * h / 2.0))
+            .map(|node| integrand(a + (node - 0.5) * h))
             .sum();
 
         h / 6.0
             * (2.0 * sum_over_interval_edges
                 + 4.0 * sum_over_midpoints
-                + 4.0 * integrand(a + (2.0 * n - 1.0) * h / 2.0)
+                + 4.0 * integrand(a + (n - 0.5) * h)
                 + integrand(a)
                 + integrand(b))
     }
@@ -120,7 +120,7 @@ impl Simpson {
             || {
                 (1..self.degree().get())
                     .into_par_iter()
-                    .map(|node| integrand(a + (2.0 * f64::from(node) - 1.0) * h / 2.0))
+                    .map(|node| integrand(a + (f64::from(node) - 0.5) * h))
                     .sum::<f64>()
             },
         );
@@ -128,7 +128,7 @@ impl Simpson {
         h / 6.0
             * (2.0 * sum_over_interval_edges
                 + 4.0 * sum_over_midpoints
-                + 4.0 * integrand(a + (2.0 * n - 1.0) * h / 2.0)
+                + 4.0 * integrand(a + (n - 0.5) * h)
                 + integrand(a)
                 + integrand(b))
     }
-- 
2.43.0

