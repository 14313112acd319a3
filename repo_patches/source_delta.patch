From 7e9aeb7447b47fa5fd762d864438ef152e7d5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:13 +0000
Subject: [PATCH 1/8] fix: make sign-change counting at negative infinity
 compile

The closure passed to Option::map took no argument, so the whole crate did
not build.
---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From 9efe30dd81df07f942b205526b366b4b77ec6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 2/8] fix: make lifted modular factors monic before searching
 for integer factors

When the constant leaf ended up on the right-hand side of an interior
node of the factor tree (which happens for ties in total degree), Hensel
lifting moved the highest power coefficient into another factor, so that
non-monic polynomials with several factors could come back unsplit.
---
 src/polynomial/factorization_over_integers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..4a836d8 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,12 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // Hensel lifting can move the highest power coefficient into any of the factors,
+        // the search below needs them to be monic
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From 6c1c8d93493fb89f4681903fe3e16a4715226df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 3/8] fix: don't select an interval bound as the result just
 because it is a root

A bound of the interval can be a root of one of the factors without being
the result of the operation; count it as a candidate like any other root
and keep shrinking until only one is left.
---
 src/algebraic_numbers.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..54a90fc 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -1000,23 +1000,19 @@ trait RootSelector: Sized {
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
-                if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                // the difference counts the roots in lower_bound < x <= upper_bound
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
+                if lower_bound_sign_changes.is_root {
+                    num_roots += 1;
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
-- 
2.43.0


From 5d85e9a9593c29e8dce54a386f7c027552ee410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 4/8] fix: fract of negative rational numbers is self -
 self.floor() as documented

---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 54a90fc..a078a92 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From 0a6660ab27c545589368f4814cbe060a59c5a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:45 +0000
Subject: [PATCH 5/8] fix: recip isolates its result and keeps a positive
 leading coefficient

The reciprocal of a coarse interval can contain several roots of the
reversed polynomial, and that polynomial's highest power coefficient can
be negative. Select the root like the other operations do.
---
 src/algebraic_numbers.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index a078a92..9b8857f 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -641,18 +641,24 @@ impl RealAlgebraicNumber {
             return Some(value.recip().into());
         }
         let mut value = self.clone();
-        value
+        let (_, interval_shrinker) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        struct RecipRootSelector<'a> {
+            interval_shrinker: IntervalShrinker<'a>,
+        }
+        impl RootSelector for RecipRootSelector<'_> {
+            fn get_interval(&self) -> DyadicFractionInterval {
+                self.interval_shrinker.interval.recip()
+            }
+            fn shrink_interval(&mut self) {
+                self.interval_shrinker.shrink();
+            }
+        }
+        Some(
+            RecipRootSelector { interval_shrinker }
+                .select_root(self.minimal_polynomial().iter().rev().collect()),
+        )
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
-- 
2.43.0


From 9a54fce24302890002cd778969123f4733f90a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 6/8] fix: exp doesn't panic when a term of its series is
 exactly one unit

---
 src/interval_arithmetic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..0271a22 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -722,8 +722,10 @@ impl DyadicFractionInterval {
             term *= &self;
             term /= i;
             retval += &term;
-            if term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero() {
-                assert!(term.lower_bound_numer.is_zero());
+            // a term that is exactly one unit is followed by another one
+            if term.lower_bound_numer.is_zero()
+                && (term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero())
+            {
                 break;
             }
         }
-- 
2.43.0


From 401acf5f5e7f8abc5f13ed47aa1e23feebb99f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:08 +0000
Subject: [PATCH 7/8] fix: keep the logarithm of a huge number as precise as
 that of a small one

The error of ln(2) gets multiplied by the exponent of the argument, so 16
guard bits are not enough for arguments of 2^131072 and more.
---
 src/interval_arithmetic.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 0271a22..67f9f0d 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -625,7 +625,6 @@ impl DyadicFractionInterval {
     pub fn log(&self) -> Self {
         assert!(self.lower_bound_numer.is_positive());
         assert!(self.upper_bound_numer >= self.lower_bound_numer);
-        let working_log2_denom = self.log2_denom + 16;
         let i64_self_log2_denom =
             i64::from_usize(self.log2_denom).expect("self.log2_denom doesn't fit in i64");
         let mut lower_bound_shift = self
@@ -638,6 +637,13 @@ impl DyadicFractionInterval {
             .floor_log2()
             .expect("already checked") as i64
             - i64_self_log2_denom;
+        // the error of `natural_log_of_2` gets multiplied by the shifts
+        let max_abs_shift = lower_bound_shift.abs().max(upper_bound_shift.abs()) as usize;
+        let working_log2_denom = self.log2_denom
+            + 16
+            + (max_abs_shift + 1)
+                .floor_log2()
+                .expect("max_abs_shift + 1 is non-zero");
         let (self_lower_bound, self_upper_bound) = self.to_ratio_range();
         let mut shifted_lower_bound = if lower_bound_shift < 0 {
             self_lower_bound * (BigInt::one() << (-lower_bound_shift) as usize)
-- 
2.43.0


From 574df2b1f1b49b40501cdf04eb37c757524a1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:36 +0000
Subject: [PATCH 8/8] fix: allocate the new list of cached constants before
 locking

An allocation that fails while the write lock is held poisons the lock, and
every later request for the constant panics.
---
 src/interval_arithmetic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 67f9f0d..10c37f4 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -78,10 +78,12 @@ impl ConstantCache {
         }
     }
     fn write_cache(&self, new_cache: Vec<Arc<DyadicFractionInterval>>) {
+        // allocate before locking: running out of memory must not poison the lock
+        let new_cache = Arc::new(new_cache);
         let mut write_lock = self.cache.write().unwrap();
         // check because some other thread could have calculated a more accurate in the mean time
         if new_cache.len() > write_lock.len() {
-            *write_lock = Arc::new(new_cache);
+            *write_lock = new_cache;
         }
     }
     #[cold]
-- 
2.43.0

