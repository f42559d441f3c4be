From 160356ea25c3f551d0c833dfa3cfcd6fe0866a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 01/14] fix: VectorLFA::update_with applies errors in logical
 order

into_raw_vec() yields the backing buffer, which for an array returned in a
reversed, strided or sliced layout is not the sequence of its elements.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..d484aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values);
 
             errors
                 .into_iter()
-- 
2.43.0


From 971ffdce50d15e4cab24a24fc4e479facc842638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 02/14] fix: Features stacking and conversion to Vec respect
 array layout

Both read the raw backing buffer of the dense activations, which panics or
yields other values when the array is not contiguous in logical order.
---
 src/features.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..e27f060 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,10 +303,9 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let (da1, da2) = (f1.into_dense(), f2.into_dense());
 
-                Dense(all_activations.into())
+                Dense(da1.into_iter().chain(da2).collect())
             }
         }
     }
@@ -791,7 +790,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().into_iter().collect()
     }
 }
 
-- 
2.43.0


From 582a03f36de222fbdd8fa7dcba65ab3b6692b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 03/14] fix: Adam and AdaMax bias correction counts steps from
 one

The running products of beta started at beta and were multiplied once more
before their first use, so that step t was corrected by beta^(t+1).
---
 src/optim/adam.rs   | 4 ++--
 src/optim/adamax.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..3c92644 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..832882d 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
-- 
2.43.0


From 69bb7e358acd48c582786ac038d8fb6a090d9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 04/14] fix: NAG look-ahead step uses the learning rate and the
 error

The second half of the step added momentum * features to the weights whatever
the learning rate and the error, so that even a zero error moved them. Nesterov
momentum steps by lr * (gradient + momentum * velocity).
---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From fd8e9e20018dad55822c7e6ec06a44508ed9554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 05/14] fix: indexing sparse Features returns the stored
 activation

---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index e27f060..752d9c1 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -718,11 +718,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From f697970888166b64c6865876c77795f433bb7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 06/14] fix: inner product of sparse Features uses their
 activations

---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 752d9c1..ad243b1 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -688,13 +688,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.iter().fold(0.0, |acc, (k, v1)| {
+                    acc + v1 * sa2.activations.get(k).copied().unwrap_or(0.0)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From dc376832f06c390537e0c17583d89ce9d29e5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 07/14] fix: conversion to sparse Features keeps the dimension
 and accepts no entries

---
 src/features.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ad243b1..7e56b70 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -754,18 +754,13 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
 impl From<Vec<IndexT>> for Features {
     fn from(indices: Vec<IndexT>) -> Features {
-        let n = indices.iter().max().unwrap() + 1;
+        let n = indices.iter().max().map_or(0, |i| i + 1);
 
         SparseFeatures(SparseActivations {
             dim: n,
-- 
2.43.0


From 8c7509b79695ee045daf2ea52dd066cb751985a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 08/14] fix: merging Features treats absent and missing entries
 as zero

---
 src/features.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 7e56b70..2886dc7 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -435,13 +435,7 @@ impl Features {
 
                         Dense(a_out)
                     }
-                    Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
-                        }
-
-                        Dense(a_out)
-                    }
+                    Sparse(_) => Features::merge_dense(self, other, f),
                 }
             }
             Sparse(sa1) => match other {
@@ -452,12 +446,14 @@ impl Features {
                     for i in 0..n {
                         phi[i] = MaybeUninit::new(f(
                             sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
+                            da2.get(i).copied().unwrap_or(0.0),
                         ));
                     }
 
                     unsafe { Dense(phi.assume_init()) }
                 }
+                // Is the function sparsity preserving?
+                Sparse(_) if !(f(0.0, 0.0).abs() < 1e-5) => Features::merge_dense(self, other, f),
                 Sparse(sa2) => {
                     let mut idx_out = sa1.activations.clone();
 
@@ -493,13 +489,7 @@ impl Features {
 
                     Dense(da1)
                 }
-                Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
-                    }
-
-                    Dense(da1)
-                }
+                Sparse(_) => Features::merge_dense(&Dense(da1), other, f),
             },
             Sparse(mut sa1) => match other {
                 Dense(da2) => {
@@ -515,6 +505,10 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
+                // Is the function sparsity preserving?
+                Sparse(_) if !(f(0.0, 0.0).abs() < 1e-5) => {
+                    Features::merge_dense(&Sparse(sa1), other, f)
+                }
                 Sparse(sa2) => {
                     for (i, a) in sa1.activations.iter_mut() {
                         *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
@@ -533,6 +527,21 @@ impl Features {
         }
     }
 
+    fn merge_dense(
+        f1: &Features,
+        f2: &Features,
+        f: impl Fn(ActivationT, ActivationT) -> ActivationT,
+    ) -> Features {
+        (0..f1.n_features().max(f2.n_features()))
+            .map(|i| {
+                f(
+                    f1.get(i).copied().unwrap_or(0.0),
+                    f2.get(i).copied().unwrap_or(0.0),
+                )
+            })
+            .collect()
+    }
+
     /// Merge `self` in-place with another feature vector using an operation,
     /// `f`.
     pub fn merge_inplace(
-- 
2.43.0


From e5c25a93d4cae22027b0b98a642501680d7e45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 09/14] fix: in-place map and merge of Features survive a
 panicking callback

---
 src/features.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 2886dc7..9039b1a 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -2,7 +2,7 @@
 use ndarray::{linalg::Dot, Array1, ArrayBase, Data, DataMut, Dimension, NdIndex};
 use std::{
     iter::FromIterator,
-    mem::{self, MaybeUninit},
+    mem::MaybeUninit,
     ops::{AddAssign, Index},
 };
 
@@ -375,10 +375,10 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
-
-        mem::drop(mem::replace(self, old.map_into(f)));
+        match self {
+            Features::Dense(da) => da.mapv_inplace(f),
+            Features::Sparse(_) => *self = self.map(f),
+        }
     }
 
     /// Map the function `f` over the internal `DenseActivations` representation
@@ -549,10 +549,12 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
-
-        mem::drop(mem::replace(self, old.merge_into(other, f)));
+        match (&mut *self, other) {
+            (Features::Dense(da1), Features::Dense(da2)) => {
+                da1.zip_mut_with(da2, |x, y| *x = f(*x, *y))
+            }
+            _ => *self = self.merge(other, f),
+        }
     }
 
     /// Perform a fold operation over the feature activations.
-- 
2.43.0


From d37500adaa2fa2e9853be56d2db8c3a4d484e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 10/14] fix: dense Fixed basis gives every feature by index

---
 src/basis/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..2c08c56 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,7 +65,7 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
+        check_index!(index < self.0.len() => {
             Ok(*self.0.get(index).unwrap())
         })
     }
-- 
2.43.0


From ea1c3ea939a658e1d072e473ee5512266625ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 11/14] fix: normalised sparse features that are inactive are
 zero by index

---
 src/basis/normalisation.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..e6faa13 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -48,7 +48,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    unsafe { f.uget(index).unwrap() / z }
+                    f.get(index).copied().unwrap_or(0.0) / z
                 })
         })
     }
@@ -116,8 +116,9 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |a| {
+                    a / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())
+                }),
             })
         })
     }
@@ -185,8 +186,9 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |a| {
+                    a / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt()
+                }),
             })
         })
     }
@@ -256,10 +258,12 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
-                    f64::NEG_INFINITY,
-                    |acc, (_, x)| acc.max(x.abs())
-                ),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |a| {
+                    a / sa.iter().fold(
+                        f64::NEG_INFINITY,
+                        |acc, (_, x)| acc.max(x.abs())
+                    )
+                }),
             })
         })
     }
-- 
2.43.0


From 6607ac9e9a12aaf2486356ba0b4ec00a33b22dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 12/14] fix: resetting Adam and AdaMax restarts the bias
 correction

---
 src/optim/adam.rs   | 3 +++
 src/optim/adamax.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 3c92644..96a5284 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -100,6 +100,9 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
+
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 832882d..6d321c1 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -93,6 +93,8 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From e282cc950db05456c0edd830c731d080242f26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 13/14] fix: Chebyshev serialises its polynomials, loading
 reports unsupported orders

---
 src/basis/polynomial/mod.rs | 117 ++++++++++++++++++++++++++++++------
 1 file changed, 98 insertions(+), 19 deletions(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..943c8f9 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -124,7 +124,8 @@ pub struct Chebyshev {
     pub order: u8,
     pub limits: Vec<(f64, f64)>,
 
-    #[cfg_attr(feature = "serde", serde(skip_serializing))]
+    // Serialised as the degrees of the polynomials.
+    #[cfg_attr(feature = "serde", serde(serialize_with = "serialize_degrees"))]
     pub polynomials: Vec<Vec<fn(f64) -> f64>>,
 }
 
@@ -164,26 +165,33 @@ impl Chebyshev {
         exponents
             .map(|vals| {
                 vals.iter()
-                    .map(|i| match *i {
-                        0 => cpfk::t_0,
-                        1 => cpfk::t_1,
-                        2 => cpfk::t_2,
-                        3 => cpfk::t_3,
-                        4 => cpfk::t_4,
-                        5 => cpfk::t_5,
-                        6 => cpfk::t_6,
-                        7 => cpfk::t_7,
-                        8 => cpfk::t_8,
-                        9 => cpfk::t_9,
-                        10 => cpfk::t_10,
-                        11 => cpfk::t_11,
-                        _ => panic!("Chebyshev only supports orders up to 11."),
+                    .map(|i| match Chebyshev::polynomial(*i) {
+                        Some(p) => p,
+                        None => panic!("Chebyshev only supports orders up to 11."),
                     })
                     .collect()
             })
             .collect()
     }
 
+    fn polynomial(degree: u8) -> Option<fn(f64) -> f64> {
+        Some(match degree {
+            0 => cpfk::t_0,
+            1 => cpfk::t_1,
+            2 => cpfk::t_2,
+            3 => cpfk::t_3,
+            4 => cpfk::t_4,
+            5 => cpfk::t_5,
+            6 => cpfk::t_6,
+            7 => cpfk::t_7,
+            8 => cpfk::t_8,
+            9 => cpfk::t_9,
+            10 => cpfk::t_10,
+            11 => cpfk::t_11,
+            _ => return None,
+        })
+    }
+
     fn compute_feature<'a, I>(iter: I) -> f64
     where
         I: IntoIterator<Item = (f64, &'a fn(f64) -> f64)>,
@@ -242,11 +250,71 @@ impl Combinators for Chebyshev {}
 #[cfg(feature = "serde")]
 use serde::{
     de::{self, MapAccess, SeqAccess, Visitor},
-    Deserialize, Deserializer,
+    ser, Deserialize, Deserializer, Serializer,
 };
 #[cfg(feature = "serde")]
 use std::fmt;
 #[cfg(feature = "serde")]
+fn serialize_degrees<S: Serializer>(
+    polynomials: &Vec<Vec<fn(f64) -> f64>>,
+    serializer: S,
+) -> std::result::Result<S::Ok, S::Error> {
+    // The values at integers are exact and tell Chebyshev polynomials apart.
+    let degree = |p: &fn(f64) -> f64| {
+        (0..=11)
+            .find(|&d| {
+                Chebyshev::polynomial(d).map_or(false, |t| t(2.0) == p(2.0) && t(3.0) == p(3.0))
+            })
+            .ok_or_else(|| ser::Error::custom("not a Chebyshev polynomial of order up to 11"))
+    };
+
+    let degrees: std::result::Result<Vec<Vec<u8>>, S::Error> = polynomials
+        .iter()
+        .map(|ps| ps.iter().map(degree).collect())
+        .collect();
+
+    serializer.collect_seq(degrees?)
+}
+#[cfg(feature = "serde")]
+impl Chebyshev {
+    fn from_degrees<E: de::Error>(
+        order: u8,
+        limits: Vec<(f64, f64)>,
+        degrees: Option<Vec<Vec<u8>>>,
+    ) -> std::result::Result<Self, E> {
+        let unsupported = || E::custom("Chebyshev only supports orders up to 11.");
+
+        if order > 11 {
+            return Err(unsupported());
+        }
+
+        let degrees = match degrees {
+            Some(degrees) => degrees,
+            // Saved by a version that did not write them.
+            None => return Ok(Chebyshev::new(order, limits)),
+        };
+
+        let polynomials = degrees
+            .into_iter()
+            .map(|ds| {
+                if ds.len() != limits.len() {
+                    return Err(E::invalid_length(ds.len(), &"one degree for each limit"));
+                }
+
+                ds.into_iter()
+                    .map(|d| Chebyshev::polynomial(d).ok_or_else(unsupported))
+                    .collect()
+            })
+            .collect::<std::result::Result<_, E>>()?;
+
+        Ok(Chebyshev {
+            order,
+            limits,
+            polynomials,
+        })
+    }
+}
+#[cfg(feature = "serde")]
 impl<'de> Deserialize<'de> for Chebyshev {
     fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
     where
@@ -261,6 +329,7 @@ impl<'de> Deserialize<'de> for Chebyshev {
         enum Field {
             Order,
             Limits,
+            Polynomials,
         }
 
         struct ChebyshevVisitor;
@@ -282,8 +351,11 @@ impl<'de> Deserialize<'de> for Chebyshev {
                 let limits = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
+                let degrees = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(2, &self))?;
 
-                Ok(Chebyshev::new(order, limits))
+                Chebyshev::from_degrees(order, limits, Some(degrees))
             }
 
             fn visit_map<V>(self, mut map: V) -> std::result::Result<Chebyshev, V::Error>
@@ -292,6 +364,7 @@ impl<'de> Deserialize<'de> for Chebyshev {
             {
                 let mut order = None;
                 let mut limits = None;
+                let mut degrees = None;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::Order => {
@@ -306,17 +379,23 @@ impl<'de> Deserialize<'de> for Chebyshev {
                             }
                             limits = Some(map.next_value()?);
                         }
+                        Field::Polynomials => {
+                            if degrees.is_some() {
+                                return Err(de::Error::duplicate_field("polynomials"));
+                            }
+                            degrees = Some(map.next_value()?);
+                        }
                     }
                 }
 
                 let order = order.ok_or_else(|| de::Error::missing_field("order"))?;
                 let limits = limits.ok_or_else(|| de::Error::missing_field("limits"))?;
 
-                Ok(Chebyshev::new(order, limits))
+                Chebyshev::from_degrees(order, limits, degrees)
             }
         }
 
-        const FIELDS: &'static [&'static str] = &["order", "limits"];
+        const FIELDS: &'static [&'static str] = &["order", "limits", "polynomials"];
         deserializer.deserialize_struct("Chebyshev", FIELDS, ChebyshevVisitor)
     }
 }
-- 
2.43.0


From 4a3b4faf4408b7707d9e8ee4782b91453f8214dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 14/14] fix: tile coding saturates where an input lies beyond
 the last countable tile

---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..4161af6 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -28,7 +28,7 @@ fn hash_state<'a, H: Hasher + 'a>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize(s.saturating_add(offset) / n_tilings as isize)
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0

