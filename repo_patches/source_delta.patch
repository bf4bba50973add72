From 7be03328d111866395a06a9249ec79ecfa271ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 01/11] fix: Barrett dot product no longer drops the elements
 after the last full block of 16

---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From 3bdb2b25d26c4fdbbd705e33187f167734325927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 02/11] fix: run every Miller-Rabin round

Reaching -1 while squaring ended the whole test ('break' of the round loop),
so a strong pseudoprime to base 2 such as 49141 was reported prime whatever
the number of rounds.
---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From 9102fcdbd1775c6e59ad09d7efcded05ae8312e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 03/11] fix: decompose_at writes every digit

It stopped at the first zero remainder and left the remaining entries of the
destination as they were, so a reused buffer kept stale high digits.
---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From c3f289e979e5c01867097552786ef588a8a75432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 04/11] fix: decode accepts equal plaintext and ciphertext
 moduli

With t == q, which Parameters::new accepts, the shift amount underflowed:
a panic in debug builds, a wrong message in release builds.
---
 fhe_core/src/plaintext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fhe_core/src/plaintext.rs b/fhe_core/src/plaintext.rs
index 3378f94..cd5ff86 100644
--- a/fhe_core/src/plaintext.rs
+++ b/fhe_core/src/plaintext.rs
@@ -109,11 +109,10 @@ where
     C: LWEModulusType,
 {
     debug_assert!(q.is_power_of_two() && t.is_power_of_two());
-    // Move the message to the least significant part of `C`.
-    // Leave one more bit for round.
+    // Move the message to the least significant part of `C`, rounding half a step up.
     let cipher: u64 = cipher.as_into();
-    let temp = cipher >> ((q / t).trailing_zeros() - 1);
-    let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);
+    let step = q / t;
+    let decoded = (cipher.wrapping_add(step >> 1) >> step.trailing_zeros()) & (t - 1);
 
     M::shrink(decoded)
 }
-- 
2.43.0


From 4fd6aad1aae91552aecc812db4eed21356d60387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 05/11] fix: Goldilocks reduce maps the modulus itself to zero

---
 algebra/src/modulus/goldilocks/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..90aec63 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -13,7 +13,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
-- 
2.43.0


From 308f7de3c936e44bbe04e8c8e31d00c65a7817c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 06/11] fix: Goldilocks negation accepts the non-canonical
 values other operations return

---
 algebra/src/modulus/goldilocks/ops.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 90aec63..cbe46c3 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -6,7 +6,7 @@ use num_traits::PrimInt;
 
 use crate::{reduce::*, Bits};
 
-use super::{reduce128, try_inverse, GoldilocksModulus, EPSILON, P};
+use super::{reduce128, to_canonical_u64, try_inverse, GoldilocksModulus, EPSILON, P};
 
 impl Reduce<GoldilocksModulus> for u64 {
     type Output = Self;
@@ -77,10 +77,12 @@ impl NegReduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn neg_reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self == 0 {
+        // `self` may be non-canonical, as the other operations can return such values.
+        let value = to_canonical_u64(self);
+        if value == 0 {
             0
         } else {
-            P - self
+            P - value
         }
     }
 }
-- 
2.43.0


From d3ffdf60d8d256aa6ca2ec5aa467dac33c7cf153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 07/11] fix: Goldilocks inversion rejects the non-canonical
 zero

---
 algebra/src/modulus/goldilocks/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
-- 
2.43.0


From cc2c614cd15398fee5ba523637fc305460d2e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 08/11] fix: inverse transform accepts dimension one

---
 algebra/src/transformation/ntt_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..87caa05 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -339,6 +339,12 @@ where
             }
         }
 
+        if log_n == 0 {
+            // a single coefficient is its own transform
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0


From 09d7b5f7835e8de3602717668dde47adad99db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 09/11] fix: gadget samples stop at the last basis power

---
 lattice/src/gadget/rlwe.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..e55ea63 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -182,13 +182,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.b_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 
@@ -206,13 +210,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.a_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 }
-- 
2.43.0


From ed00cbf6ba1ba52e68b3739eaeee79c84ed84175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 10/11] fix: Gaussian samplers with zero standard deviation
 never return

The constructors accept a zero standard deviation, for which the maximum
deviation is zero as well; the strict comparison then rejected every sample
and sample() looped forever.
---
 algebra/src/random.rs       | 2 +-
 lattice/src/utils/sample.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 80b4634..df7e77d 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -204,7 +204,7 @@ impl<F: Field> Distribution<F> for FieldDiscreteGaussianSampler {
         let gaussian = self.gaussian();
         loop {
             let value = gaussian.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return F::new(F::MODULUS_VALUE - (-round).as_into());
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index 6b891bc..b02c1f8 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -140,7 +140,7 @@ where
         let mean = self.normal.mean();
         loop {
             let value = self.normal.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return self.modulus - T::as_from(-round);
-- 
2.43.0


From a2f606adc5a83aaba0b91339f98f13acafd593fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:23 +0000
Subject: [PATCH 11/11] fix: guard the NTT table cache of derived fields
 against concurrent use

get_ntt_table read the static table map without holding the lock under
which init_ntt_table inserts into it (and aliased it mutably), so two
threads using a field at once could race on the map. Keep the tables
behind a reader-writer lock instead.
---
 algebra_derive/src/ntt.rs | 60 +++++++++++++--------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..46354c3 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -38,8 +38,7 @@ fn impl_ntt(input: Input) -> TokenStream {
     #[cfg(not(feature = "concrete-ntt"))]
     let root = quote! {::algebra::modulus::ShoupFactor<<Self as ::algebra::Field>::Value>};
 
-    let ntt_table = format_ident!("NTT_TABLE{}", name.to_string().to_uppercase());
-    let ntt_mutex = format_ident!("NTT_MUTEX{}", name.to_string().to_uppercase());
+    let ntt_tables = format_ident!("NTT_TABLES{}", name.to_string().to_uppercase());
 
     let from_root = impl_from_root(modulus_value);
     let to_root = impl_to_root(modulus_value, &modulus);
@@ -48,9 +47,8 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
 
     quote! {
-        static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
-            = ::once_cell::sync::OnceCell::new();
-        static #ntt_mutex: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
+        static #ntt_tables: ::std::sync::RwLock<::std::collections::BTreeMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
+            = ::std::sync::RwLock::new(::std::collections::BTreeMap::new());
 
         impl ::std::convert::From<usize> for #name {
             #[inline]
@@ -147,49 +145,31 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
-                    if let Some(t) = tables.get(&log_n) {
-                        return Ok(::std::sync::Arc::clone(t));
-                    }
+                // a table is inserted only after it is complete, so a poisoned lock guards valid data
+                let find = || {
+                    let tables = #ntt_tables.read().unwrap_or_else(::std::sync::PoisonError::into_inner);
+                    tables.get(&log_n).map(::std::sync::Arc::clone)
+                };
+
+                if let Some(t) = find() {
+                    return Ok(t);
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(unsafe {
-                    #ntt_table.get().unwrap().get(&log_n).unwrap()
-                }))
+                Ok(find().unwrap())
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
-                let _g = #ntt_mutex.lock().unwrap();
-                match unsafe { #ntt_table.get_mut() } {
-                    Some(tables) => {
-                        let new_log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let old_log_ns: ::std::collections::HashSet<u32> = tables.keys().copied().collect();
-                        let difference = new_log_ns.difference(&old_log_ns);
-
-                        for &log_n in difference {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            tables.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        Ok(())
-                    }
-                    None => {
-                        let log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let mut map = ::std::collections::HashMap::with_capacity(log_ns.len());
-
-                        for log_n in log_ns {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            map.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        if unsafe { #ntt_table.set(map).is_err() } {
-                            Err(::algebra::AlgebraError::NTTTableError)
-                        } else {
-                            Ok(())
-                        }
+                let mut tables = #ntt_tables.write().unwrap();
+
+                for &log_n in log_ns {
+                    if !tables.contains_key(&log_n) {
+                        let temp_table = Self::generate_ntt_table(log_n)?;
+                        tables.insert(log_n, ::std::sync::Arc::new(temp_table));
                     }
                 }
+
+                Ok(())
             }
         }
     }
-- 
2.43.0

