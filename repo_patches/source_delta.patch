From 911bb7256c212157b64cc049d5235ac72a3188ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 01/26] fix: multiplying two zero dense polynomials panicked

slice_mul computed 0 + 0 - 1 as the length of the product of two zero
polynomials; zero.pow(n) for n >= 2 failed the same way.
---
 src/polynomial/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..227fbbe 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,6 +58,9 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
+    if rhs.is_empty() || lhs.is_empty() {
+        return vec![];
+    }
     let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
-- 
2.43.0


From ac094d84c761522ba6fa64bcdb8b8b9bb79166ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:19 +0000
Subject: [PATCH 02/26] fix: dense division and remainder could loop forever

---
 src/polynomial/polynomial.rs | 71 +++++++++---------------------------
 1 file changed, 17 insertions(+), 54 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 227fbbe..464b24a 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -503,8 +503,23 @@ where
 
         while self_degree >= rhs_deg {
             let scale = coeff / rhs_first;
+            if scale.is_zero() {
+                // Only possible if N's division truncates (or underflows).
+                break;
+            }
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div[offset - self_degree] = scale;
+
+            let leading = remainder.len() - self_degree - 1;
+            if !remainder[leading].is_zero() {
+                if (remainder[leading] / rhs_first).is_zero() {
+                    // Division of the leading term was inexact.
+                    break;
+                }
+                // Rounding error left a residue of the term which was just eliminated.
+                remainder[leading] = zero;
+            }
+
             match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeffx, degree) => {
@@ -536,35 +551,7 @@ where
 
     /// Returns the remainder of dividing `self` by `rhs`.
     fn rem(self, rhs: Polynomial<N>) -> Polynomial<N> {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => panic!("Can't divide polynomial by 0."),
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return self.clone(),
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return self.clone();
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        let mut remainder = self.terms.clone();
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
-
-        Polynomial::new(remainder)
+        self.div_mod(&rhs).1
     }
 }
 
@@ -574,31 +561,7 @@ where
 {
     /// Assign the remainder of dividing `self` by `rhs` to `self`.
     fn rem_assign(&mut self, rhs: Polynomial<N>) {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => panic!("Can't divide polynomial by 0."),
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return,
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        *self = self.div_mod(&rhs).1;
     }
 }
 
-- 
2.43.0


From 1014291771bd6ebeedd4ee65f44f0dc230313e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:42 +0000
Subject: [PATCH 03/26] fix: sparse division did not align the divisor with the
 dividend

---
 src/polynomial/sparsepolynomial.rs | 113 +++++++++--------------------
 1 file changed, 35 insertions(+), 78 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..efa6ccd 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,20 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
+/// Subtracts `rhs * rhs_scale * x^shift` from `lhs`, where `rhs_deg` is the degree of `rhs`.
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_deg: usize,
+    rhs_scale: N,
+    shift: usize,
+) where
     N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
-    for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+    for (&rdeg, &rcoeff) in rhs.range(..=rhs_deg) {
+        match lhs.get_mut(&(rdeg + shift)) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg + shift, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -522,7 +528,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return (
                     SparsePolynomial::zero(),
@@ -536,23 +542,38 @@ where
                         SparsePolynomial::new(self.terms.clone()),
                     );
                 }
-                (term / rhs_first, degree)
+                (term, degree)
             }
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
+            let scale = coeff / rhs_first;
+            if scale.is_zero() {
+                // Only possible if N's division truncates (or underflows).
+                break;
+            }
+            let shift = self_degree - rhs_deg;
+            map_sub_w_scale(&mut remainder, &rhs.terms, rhs_deg, scale, shift);
+            div.add_term(scale, shift);
+
+            if let Some(&residue) = remainder.get(&self_degree) {
+                if !residue.is_zero() && (residue / rhs_first).is_zero() {
+                    // Division of the leading term was inexact.
+                    break;
+                }
+                // Either the term was eliminated, or rounding error left a residue of it.
+                remainder.remove(&self_degree);
+            }
+
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
                 }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
@@ -577,41 +598,7 @@ where
 
     /// Returns the remainder of dividing `self` by `rhs`.
     fn rem(self, rhs: SparsePolynomial<N>) -> SparsePolynomial<N> {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => {
-                panic!("Can't divide by 0.");
-            }
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return SparsePolynomial::new(self.terms.clone());
-            }
-            Term::Term(term, degree) => {
-                if degree < rhs_deg {
-                    return SparsePolynomial::new(self.terms.clone());
-                }
-                (term / rhs_first, degree)
-            }
-        };
-
-        let mut remainder = self.terms;
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            match first_term(&remainder) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
-
-        SparsePolynomial::new(remainder)
+        self.div_mod(&rhs).1
     }
 }
 
@@ -628,37 +615,7 @@ where
 {
     /// Assign the remainder of dividing `self` by `rhs` to `self`.
     fn rem_assign(&mut self, rhs: SparsePolynomial<N>) {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => {
-                panic!("Can't divide polynomial by 0.");
-            }
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return;
-            }
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        *self = self.div_mod(&rhs).1;
     }
 }
 
-- 
2.43.0


From c722f5ec5b3fa01f29df6e4296b08179bd3d1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:22 +0000
Subject: [PATCH 04/26] fix: evaluating stored zero terms could overflow in the
 power

---
 src/polynomial/monomial.rs         | 8 ++++++--
 src/polynomial/sparsepolynomial.rs | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..ae1493d 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -163,7 +163,7 @@ where
 
 impl<N> Evaluable<N> for Monomial<N>
 where
-    N: PowUsize + Mul<Output = N> + Copy,
+    N: Zero + PowUsize + Mul<Output = N> + Copy,
 {
     /// Returns the value of the `Monomial` at the given point.
     ///
@@ -176,7 +176,11 @@ where
     /// assert_eq!(1, Monomial::new(1, 0).eval(0));
     /// ```
     fn eval(&self, point: N) -> N {
-        self.coefficient * point.upow(self.deg)
+        if self.coefficient.is_zero() {
+            N::zero()
+        } else {
+            self.coefficient * point.upow(self.deg)
+        }
     }
 }
 
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index efa6ccd..7c2085c 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -380,7 +380,9 @@ where
     fn eval(&self, point: N) -> N {
         let mut sum = N::zero();
         for (&degree, &val) in self.terms.iter() {
-            sum += val * point.upow(degree);
+            if !val.is_zero() {
+                sum += val * point.upow(degree);
+            }
         }
         sum
     }
-- 
2.43.0


From d8f0afa7e536657ee7fcfe02c3920ef2c42e8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 05/26] fix: powers with exponents beyond 32 bits were
 truncated

---
 src/numerics.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..d77b55b 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -89,7 +89,7 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                num::pow(self, exp)
             }
         }
     };
@@ -110,13 +110,21 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp <= i32::MAX as usize {
+            self.powi(exp as i32)
+        } else {
+            num::pow(self, exp)
+        }
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp <= i32::MAX as usize {
+            self.powi(exp as i32)
+        } else {
+            num::pow(self, exp)
+        }
     }
 }
 
-- 
2.43.0


From e76bbe9cd94b17357dd1c99fa67df75137b3f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:52 +0000
Subject: [PATCH 06/26] fix: sparse integral refused degrees of stored zero
 entries

---
 src/polynomial/sparsepolynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 7c2085c..b4e1609 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -448,6 +448,9 @@ where
     fn integral(&self) -> Integral<N, SparsePolynomial<N>> {
         let mut new_terms = BTreeMap::new();
         for (&deg, &coeff) in self.terms.iter() {
+            if coeff.is_zero() {
+                continue;
+            }
             new_terms.insert(
                 deg + 1,
                 coeff
-- 
2.43.0


From df36820a37768cd8c17e22278e91386edde88385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:26 +0000
Subject: [PATCH 07/26] fix: right shift of a dense polynomial with leading
 zeros panicked

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 464b24a..9a3ff99 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -889,7 +889,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if rhs > self.terms.len() - index {
                     vec![]
                 } else {
                     self.terms[index..self.terms.len() - rhs].to_vec()
-- 
2.43.0


From d09e47fbb167be1510f1431c0418b284ca3a709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:54 +0000
Subject: [PATCH 08/26] fix: shifting by i32::MIN overflowed when negating the
 amount

---
 src/polynomial/monomial.rs         | 14 ++++++++++----
 src/polynomial/polynomial.rs       | 14 ++++++++++----
 src/polynomial/sparsepolynomial.rs | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index ae1493d..33e52e0 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -507,7 +507,8 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 
     fn shl(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // -rhs can not be represented if rhs is i32::MIN.
+            self >> -(rhs + 1) >> 1
         } else {
             Monomial::new(self.coefficient, self.deg + (rhs as usize))
         }
@@ -517,7 +518,9 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Monomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // -rhs can not be represented if rhs is i32::MIN.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.deg += rhs as usize;
         }
@@ -529,7 +532,8 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 
     fn shr(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // -rhs can not be represented if rhs is i32::MIN.
+            self << -(rhs + 1) << 1
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
@@ -544,7 +548,9 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Monomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // -rhs can not be represented if rhs is i32::MIN.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 9a3ff99..c2b19aa 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -859,7 +859,8 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 
     fn shl(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // -rhs can not be represented if rhs is i32::MIN.
+            self >> -(rhs + 1) >> 1
         } else {
             let index = first_nonzero_index(&self.terms);
             let mut terms = self.terms[index..].to_vec();
@@ -872,7 +873,9 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Polynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // -rhs can not be represented if rhs is i32::MIN.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.terms.extend(vec![N::zero(); rhs as usize]);
         }
@@ -884,7 +887,8 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 
     fn shr(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // -rhs can not be represented if rhs is i32::MIN.
+            self << -(rhs + 1) << 1
         } else {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
@@ -902,7 +906,9 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Polynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // -rhs can not be represented if rhs is i32::MIN.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.terms.len() {
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index b4e1609..83746fc 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -865,7 +865,8 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 
     fn shl(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // -rhs can not be represented if rhs is i32::MIN.
+            self >> -(rhs + 1) >> 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -880,7 +881,9 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShlAssign<i32> for SparsePolynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // -rhs can not be represented if rhs is i32::MIN.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -897,7 +900,8 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 
     fn shr(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // -rhs can not be represented if rhs is i32::MIN.
+            self << -(rhs + 1) << 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -914,7 +918,9 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShrAssign<i32> for SparsePolynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // -rhs can not be represented if rhs is i32::MIN.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
-- 
2.43.0


From 158d08088016ef590074d02b92f3853f991ce73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:10 +0000
Subject: [PATCH 09/26] fix: subtracting an absent term stored as zero
 underflowed for unsigned coefficients

---
 src/polynomial/polynomial.rs       | 5 ++++-
 src/polynomial/sparsepolynomial.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index c2b19aa..706f627 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -248,7 +248,7 @@ where
     }
 
     fn try_sub_term(&mut self, coeff: N, degree: usize) -> Result<(), TryAddError> {
-        if self.terms.len() < degree + 1 {
+        if self.terms.len() <= degree {
             if !N::can_negate() {
                 return Err(TryAddError::CanNotNegate);
             }
@@ -257,6 +257,9 @@ where
                 .splice(0..0, core::iter::repeat(N::zero()).take(added_zeros));
         }
         let index = self.terms.len() - degree - 1;
+        if self.terms[index].is_zero() && !coeff.is_zero() && !N::can_negate() {
+            return Err(TryAddError::CanNotNegate);
+        }
         self.terms[index] -= coeff;
 
         Ok(())
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 83746fc..1a51f0d 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -187,6 +187,9 @@ where
                 self.terms.insert(degree, c);
             }
             Some(val) => {
+                if val.is_zero() && !N::can_negate() {
+                    return Err(TryAddError::CanNotNegate);
+                }
                 *val -= coeff;
             }
         }
-- 
2.43.0


From 29214541ea7b335abc52ed14bb88280ac329cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 10/26] fix: text with a degree but no caret parsed as a
 different polynomial

---
 src/terms.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..787ba3e 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -52,6 +52,13 @@ where
                 // eg. 123_456_789
                 // Only +, - considered separators.
                 ' ' | ',' | '_' => {}
+                // After x, only a caret followed by the digits of the degree is allowed.
+                '+' | '-' | '.' if seen_x => {
+                    return Err(TermFromStringError::UnexpectedChar(c));
+                }
+                '0'..='9' if seen_x && !seen_caret => {
+                    return Err(TermFromStringError::UnexpectedChar(c));
+                }
                 // Assume that number parser handles +, -, .'s if they shouldn't
                 // be there.
                 '+' | '-' | '.' | '0'..='9' => num_vec.push(c),
-- 
2.43.0


From f3bd01fc97f354fad31188e4e14632981beece16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:24 +0000
Subject: [PATCH 11/26] fix: displaying a trailing most negative integer
 coefficient overflowed

---
 src/strings.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/strings.rs b/src/strings.rs
index 0570e04..6eaa5d3 100644
--- a/src/strings.rs
+++ b/src/strings.rs
@@ -2,7 +2,7 @@ use core::fmt;
 
 use num::One;
 
-use crate::numerics::{Abs, IsNegativeOne, IsPositive};
+use crate::numerics::{IsNegativeOne, IsPositive};
 
 macro_rules! fmt_poly {
     ($T:ident) => {
@@ -91,18 +91,21 @@ where
 
 pub(crate) fn write_trailing_term<N>(f: &mut fmt::Formatter, coeff: N, degree: usize) -> fmt::Result
 where
-    N: fmt::Display + One + IsPositive + PartialEq + Copy + Abs,
+    N: fmt::Display + One + IsPositive + IsNegativeOne + PartialEq + Copy,
 {
     write!(f, " {} ", if coeff.is_positive() { "+" } else { "-" })?;
 
-    let coeff = coeff.abs();
+    // The absolute value of the most negative integers can not be represented,
+    // so the sign is removed from the text instead.
+    let text = format!("{}", coeff);
+    let magnitude = text.trim_start_matches('-');
 
     if degree == 0 {
-        return write!(f, "{}", coeff);
+        return write!(f, "{}", magnitude);
     }
 
-    if !coeff.is_one() {
-        write!(f, "{}", coeff)?;
+    if !coeff.is_one() && !coeff.is_negative_one() {
+        write!(f, "{}", magnitude)?;
     }
 
     if degree > 1 {
-- 
2.43.0


From def71870feffcf070f01e7bfa1aa7a455921e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:08 +0000
Subject: [PATCH 12/26] fix: quadratic roots were truncated twice for integers
 and not ordered for negative leading coefficients

---
 src/polynomial/find_roots.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..a0d3c24 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -47,16 +47,22 @@ where
 {
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
-    let b = -b / a;
 
     if discriminant.is_zero() {
-        return Roots::TwoRealRoots(b, b);
+        return Roots::TwoRealRoots(-b / a, -b / a);
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
+    let sqrt = discriminant.abs_sqrt();
     if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+        // Dividing only once keeps roots exact for integers.
+        let (root_a, root_b) = ((sqrt - b) / a, (-b - sqrt) / a);
+        if a.is_positive() {
+            Roots::TwoRealRoots(root_a, root_b)
+        } else {
+            Roots::TwoRealRoots(root_b, root_a)
+        }
     } else {
+        let (b, sqrt) = (-b / a, sqrt / a);
         Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
     }
 }
-- 
2.43.0


From da5e1364efff1e9ae913f8203ca79b98047dc493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:33 +0000
Subject: [PATCH 13/26] fix: complex factors of a quadratic had the wrong sign
 of the roots

---
 src/polynomial/array_polynomial.rs | 10 ++++++++--
 src/polynomial/trinomial.rs        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index cfbc541..93ce0b6 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -161,8 +161,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..fc79643 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
-- 
2.43.0


From ebc3d008e8e33f337618f7808bf8dee99e71a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 14/26] fix: roots of a trinomial with zero leading coefficient
 divided by zero

---
 src/polynomial/array_polynomial.rs | 6 +++++-
 src/polynomial/trinomial.rs        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 93ce0b6..8438ef8 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -148,6 +148,9 @@ where
     /// first, smallest second.
     pub fn roots(&self) -> Roots<N> {
         let [a, b, c] = self.coefficients;
+        if a.is_zero() {
+            return ArrayPolynomial::new([b, c]).root();
+        }
         trinomial_roots(a, b, c)
     }
 
@@ -158,7 +161,8 @@ where
         ArrayPolynomial<Complex<N>, 2>,
         ArrayPolynomial<Complex<N>, 2>,
     ) {
-        match self.roots() {
+        let [a, b, c] = self.coefficients;
+        match trinomial_roots(a, b, c) {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
                 ArrayPolynomial::new([
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index fc79643..0f1d7df 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -74,11 +74,15 @@ where
     /// first, smallest second.
     pub fn roots(&self) -> Roots<N> {
         let [a, b, c] = self.coefficients;
+        if a.is_zero() {
+            return LinearBinomial::new([b, c]).root();
+        }
         trinomial_roots(a, b, c)
     }
 
     pub fn complex_factors(&self) -> (N, LinearBinomial<Complex<N>>, LinearBinomial<Complex<N>>) {
-        match self.roots() {
+        let [a, b, c] = self.coefficients;
+        match trinomial_roots(a, b, c) {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
                 LinearBinomial::new([
-- 
2.43.0


From 974ed89a1143bb35223a425bc7a3e68e669d6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:02 +0000
Subject: [PATCH 15/26] fix: three distinct real roots of a cubic were computed
 with the real square root of a negative number

---
 src/numerics.rs              | 17 +++++++++++++++++
 src/polynomial/find_roots.rs | 13 ++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index d77b55b..acf5ad1 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -247,6 +247,23 @@ impl Cbrt for f64 {
     }
 }
 
+pub trait CosThirdAtan2 {
+    /// Returns the cosine of a third of the four quadrant arctangent of self and other.
+    fn cos_third_atan2(self, other: Self) -> Self;
+}
+
+impl CosThirdAtan2 for f32 {
+    fn cos_third_atan2(self, other: Self) -> Self {
+        (self.atan2(other) / 3.).cos()
+    }
+}
+
+impl CosThirdAtan2 for f64 {
+    fn cos_third_atan2(self, other: Self) -> Self {
+        (self.atan2(other) / 3.).cos()
+    }
+}
+
 pub trait CanNegate {
     fn can_negate() -> bool;
 }
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index a0d3c24..1ee35a6 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -4,7 +4,7 @@ use core::ops::{Add, AddAssign, Div, DivAssign, Mul, Neg, Sub, SubAssign};
 use num::{Complex, One, Zero};
 use roots::find_roots_sturm;
 
-use crate::numerics::{AbsSqrt, Cbrt, IsPositive};
+use crate::numerics::{AbsSqrt, Cbrt, CosThirdAtan2, IsPositive};
 use crate::polynomial::polynomial::{first_nonzero_index, first_term};
 use crate::{Degree, Evaluable, SizedPolynomial, Term};
 
@@ -77,6 +77,7 @@ where
         + Add<Output = N>
         + AbsSqrt
         + Cbrt
+        + CosThirdAtan2
         + IsPositive
         + Zero
         + One
@@ -88,8 +89,14 @@ where
     let p = -b / (N::from(3) * a);
     let q = cub(p) + (b * c - N::from(3) * a * d) / (N::from(6) * sqr(a));
     let r = c / (N::from(3) * a);
-    let k = (sqr(q) + cub(r - sqr(p))).abs_sqrt();
-    let x = (q + k).cbrt() + (q - k).cbrt() + p;
+    let discriminant = sqr(q) + cub(r - sqr(p));
+    let k = discriminant.abs_sqrt();
+    let x = if discriminant.is_zero() || discriminant.is_positive() {
+        (q + k).cbrt() + (q - k).cbrt() + p
+    } else {
+        // Three distinct real roots: the sum of the conjugate cube roots of q + ki and q - ki.
+        N::from(2) * (sqr(p) - r).abs_sqrt() * k.cos_third_atan2(q) + p
+    };
 
     let b = b / a + x;
     let c = c / a + b * x;
-- 
2.43.0


From 40c1d07483025c6466704233691f1185a02a8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:07 +0000
Subject: [PATCH 16/26] fix: dividing out a root did not terminate for infinite
 or undefined coefficients

---
 src/polynomial/find_roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 1ee35a6..8bc0d28 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -149,7 +149,8 @@ fn div<
     while self_degree >= 1 {
         let scale = coeff / rhs_first;
         let loc = values.len() - self_degree - 1;
-        values[loc] -= rhs_first * scale;
+        // Assigning zero directly always lowers the degree, even for infinite coefficients.
+        values[loc] = zero;
         values[loc + 1] += root * scale;
         div[offset - self_degree] = scale;
         match first_term(&values) {
-- 
2.43.0


From 03a5e37bb1ae478402c581aecfb5fffb9832edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:13 +0000
Subject: [PATCH 17/26] fix: root finding missed simple real roots and reported
 others twice

---
 src/polynomial/find_roots.rs | 60 +++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 8bc0d28..072bfe9 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -2,7 +2,6 @@ use alloc::vec::Vec;
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, Neg, Sub, SubAssign};
 
 use num::{Complex, One, Zero};
-use roots::find_roots_sturm;
 
 use crate::numerics::{AbsSqrt, Cbrt, CosThirdAtan2, IsPositive};
 use crate::polynomial::polynomial::{first_nonzero_index, first_term};
@@ -218,6 +217,60 @@ pub(crate) fn find_roots_special(poly: &[(f64, usize)]) -> Option<Roots<f64>> {
     })
 }
 
+/// Returns the sign of the polynomial with leading coefficient one and the given coefficients
+/// below that, which is zero if its value can not be told from zero.
+fn sign_at(values: &[f64], point: f64) -> f64 {
+    let (mut val, mut size) = (1., 1.);
+    for &coeff in values {
+        val = val * point + coeff;
+        size = size * point.abs() + coeff.abs();
+    }
+    if val.abs() <= values.len() as f64 * size * f64::EPSILON {
+        0.
+    } else {
+        val.signum()
+    }
+}
+
+/// Finds the real roots of the polynomial with leading coefficient one and the given coefficients
+/// below that, in ascending order. Multiple roots may be found fewer times than they occur.
+fn real_roots(values: &[f64]) -> Vec<f64> {
+    let degree = values.len();
+    // No root is further away from zero.
+    let bound = values.iter().fold(0f64, |max, val| max.max(val.abs())) + 1.;
+    if degree == 0 || bound.is_infinite() {
+        return vec![];
+    }
+
+    let derivative: Vec<f64> = (1..degree)
+        .map(|i| values[i - 1] * (degree - i) as f64 / degree as f64)
+        .collect();
+    let mut roots = vec![];
+    let (mut start, mut start_sign) = (-bound, sign_at(values, -bound));
+    // The polynomial is monotonic between two successive roots of the derivative.
+    for end in real_roots(&derivative).into_iter().chain(Some(bound)) {
+        let end_sign = sign_at(values, end);
+        if start_sign * end_sign < 0. {
+            let (mut low, mut high) = (start, end);
+            let mut middle = (low + high) / 2.;
+            while low < middle && middle < high {
+                if sign_at(values, middle) == start_sign {
+                    low = middle;
+                } else {
+                    high = middle;
+                }
+                middle = (low + high) / 2.;
+            }
+            roots.push(high);
+        } else if end_sign == 0. {
+            roots.push(end);
+        }
+        start = end;
+        start_sign = end_sign;
+    }
+    roots
+}
+
 /// Finds the roots of the polynomial with terms defined by the given vector, where each element
 /// is a tuple consisting of the coefficient and degree. Order is not guaranteed.
 pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) -> Roots<f64> {
@@ -244,10 +297,7 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
 
     let mut roots = vec![];
     loop {
-        let temp_roots: Vec<f64> = find_roots_sturm(&values[1..], &mut 1e-8f64)
-            .into_iter()
-            .filter_map(Result::ok)
-            .collect();
+        let temp_roots = real_roots(&values[1..]);
 
         if temp_roots.is_empty() {
             match poly.degree() {
-- 
2.43.0


From ae6039b022d90e1f23bf271c2cb28ff6b1f65ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:29 +0000
Subject: [PATCH 18/26] fix: a root close to no integer was rounded to another
 root of the polynomial

---
 src/polynomial/find_roots.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 072bfe9..ef7bbff 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -217,6 +217,28 @@ pub(crate) fn find_roots_special(poly: &[(f64, usize)]) -> Option<Roots<f64>> {
     })
 }
 
+/// Returns a distance from the given approximate root within which the polynomial has a root.
+fn root_error(values: &[f64], root: f64) -> f64 {
+    let size = values.iter().fold(0., |sum, val| sum * root.abs() + val.abs());
+    // Coefficients of the polynomial shifted by root, which has a root no further away from zero
+    // than (binomial(degree, k) * |constant / coefficient of degree k|)^(1 / k) for all k.
+    let mut shifted = values.to_vec();
+    for end in (1..=shifted.len()).rev() {
+        for i in 1..end {
+            shifted[i] += shifted[i - 1] * root;
+        }
+    }
+    shifted.reverse();
+
+    let mut product = shifted[0].abs() + size * f64::EPSILON;
+    let mut error = f64::INFINITY;
+    for (k, coeff) in shifted.iter().enumerate().skip(1) {
+        product *= (shifted.len() - k) as f64 / k as f64;
+        error = error.min((product / coeff).abs().powf(1. / k as f64));
+    }
+    error
+}
+
 /// Returns the sign of the polynomial with leading coefficient one and the given coefficients
 /// below that, which is zero if its value can not be told from zero.
 fn sign_at(values: &[f64], point: f64) -> f64 {
@@ -318,7 +340,9 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
         for root in temp_roots {
             let root = {
                 let x = root.round();
-                if poly.eval(x).abs() < poly.eval(root).abs() {
+                if (x - root).abs() <= root_error(&nvalues, root)
+                    && poly.eval(x).abs() <= poly.eval(root).abs()
+                {
                     x
                 } else {
                     root
-- 
2.43.0


From b5406455116ebcf689f432edbf790269ae9747ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 19/26] fix: poly_mul! did not compile

---
 src/polynomial/poly_math.rs | 41 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 99d352f..b14baf7 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -60,31 +60,26 @@ where
 
 #[macro_export]
 macro_rules! poly_mul {
-    ($lhs:expr, $rhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
-        let mut sink = Polynomial::zero();
-        mul_poly_vec($lhs.ordered_term_iter(), &$rhs.ordered_term_iter().collect(), &mut sink);
+    // lhs * x_0 * x_1 * ... * x_z
+    ($lhs:expr $(,$x:expr )+) => {{
+        let mut sink = $crate::poly_add!($lhs);
+        // This will never error.
+        let _ = $crate::poly_mul!(sink; $($x),*);
         sink
     }};
-
-    ($sink:expr; $lhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::{mul_poly, mul_poly_vec};
-        let sink_terms = $sink.ordered_term_iter().collect();
-        $sink.set_to_zero();
-        mul_poly_vec($lhs.ordered_term_iter(), sink_terms, &mut $sink)
-    }};
-
-    ($lhs:expr, $rhs:expr $(,$x:expr )+) => {{
-        poly_mul!(poly_mul!($lhs, $rhs) $(,$x)*)
-    }};
-
-    ($sink:expr; $lhs:expr, $(,$x:expr )*) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
-        poly_mul!($sink; $lhs);
-        poly_mul!($sink; $($x),*)
+    // sink *= x_0 * x_1 * ... * x_z
+    ($sink:expr; $($x:expr),+) => {{
+        use $crate::{poly_math::mul_poly_vec, SizedPolynomial, TryAddError};
+
+        let mut res: Result<(), TryAddError> = Ok(());
+        $(
+            if res.is_ok() {
+                let sink_terms = $sink.terms_as_vec();
+                $sink.set_to_zero();
+                res = mul_poly_vec($x.ordered_term_iter(), &sink_terms, &mut $sink);
+            }
+        )+
+        res
     }};
 }
 
-- 
2.43.0


From a0e1d3454429bec9e4c33d42cea5a1fa408ede10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:34 +0000
Subject: [PATCH 20/26] fix: poly_add! and poly_sub! only expanded where the
 caller had imported both

---
 src/polynomial/poly_math.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index b14baf7..24f3595 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -12,7 +12,7 @@ macro_rules! poly_add {
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
         // This will never error.
-        let _ = poly_add!(sink; $($x),*);
+        let _ = $crate::poly_add!(sink; $($x),*);
         sink
     }};
     // sink += (x_0 + x_1 + ... + x_z)
@@ -147,8 +147,8 @@ macro_rules! poly_sub {
     ($lhs:expr $(,$x:expr )+) => {{
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
-        let _ = poly_add!(sink; $lhs);
-        let _ = poly_sub!(sink; $($x),*);
+        let _ = $crate::poly_add!(sink; $lhs);
+        let _ = $crate::poly_sub!(sink; $($x),*);
         sink
     }};
     // sink -= (x_0 + x_1 + ... + x_z)
-- 
2.43.0


From 540b2220d7370fe32097b34adce27acf00166cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:36 +0000
Subject: [PATCH 21/26] hook: re-export the array polynomial under cfg
 rustnomial_verif

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f836de..069e2fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,8 @@ mod polynomial;
 pub mod terms;
 
 pub use crate::err::{PolynomialFromStringError, TryAddError};
+#[cfg(all(rustnomial_verif, feature = "array_polynomials"))]
+pub use crate::polynomial::array_polynomial::ArrayPolynomial;
 pub use crate::polynomial::binomial::LinearBinomial;
 pub use crate::polynomial::derivative::Derivable;
 pub use crate::polynomial::find_roots::Roots;
-- 
2.43.0


From d986a92e69f4be81d585b2d841c3d9b5cd0ca099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 22/26] fix: term degrees of array polynomials were those of a
 binomial

---
 src/polynomial/array_polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 8438ef8..8d5d66e 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -211,7 +211,7 @@ impl<N: Zero + Copy, const SIZE: usize> ArrayPolynomial<N, SIZE> {
                 if coeff.is_zero() {
                     None
                 } else {
-                    Some((coeff, 1 - index))
+                    Some((coeff, SIZE - 1 - index))
                 }
             })
     }
-- 
2.43.0


From 7680c81c88a63f406c1525ab1b834f3f30ccda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:20 +0000
Subject: [PATCH 23/26] fix: derivative of a dense polynomial required more
 than its degree to be representable

---
 src/polynomial/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 706f627..adae2a8 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -386,8 +386,6 @@ where
     /// Will panic if `N` can not losslessly encode the numbers from 0 to the degree of `self`.
     fn derivative(&self) -> Polynomial<N> {
         let index = first_nonzero_index(&self.terms);
-        let mut degree = N::try_from_usize_cont(self.terms.len() - index)
-            .expect("Degree has no lossless representation in N.");
         let mut terms = {
             if let Some((_, terms)) = self.terms.split_at(index).1.split_last() {
                 terms.to_vec()
@@ -395,9 +393,11 @@ where
                 return Polynomial::zero();
             }
         };
+        let mut degree = N::try_from_usize_cont(terms.len())
+            .expect("Degree has no lossless representation in N.");
         for term in terms.iter_mut() {
-            degree -= N::one();
             *term *= degree;
+            degree -= N::one();
         }
         Polynomial { terms }
     }
-- 
2.43.0


From 46769d96f0f3061a457884cd77a2dc104db34c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:47 +0000
Subject: [PATCH 24/26] fix: the degree usize::MAX was accepted as exactly
 representable by floats

---
 src/numerics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index acf5ad1..f2f7ce4 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -461,7 +461,8 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        // A cast to usize would saturate for values above usize::MAX.
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -472,7 +473,8 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        // A cast to usize would saturate for values above usize::MAX.
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From 9eeb13a6e4899a25aaf5edef2bf6829b16265033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:50 +0000
Subject: [PATCH 25/26] fix: derivative and integral of an array polynomial
 required its capacity to be representable

---
 src/polynomial/array_polynomial.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 8d5d66e..c2cf616 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -9,7 +9,7 @@ use crate::numerics::{
     Abs, AbsSqrt, IsNegativeOne, IsPositive, TryFromUsizeContinuous, TryFromUsizeExact,
 };
 use crate::polynomial::find_roots::{discriminant_trinomial, trinomial_roots};
-use crate::polynomial::polynomial::{degree, term_with_deg};
+use crate::polynomial::polynomial::{degree, first_nonzero_index, term_with_deg};
 use crate::{
     Degree, Derivable, Evaluable, Integrable, Integral, MutablePolynomial, Polynomial,
     QuadraticTrinomial, Roots, SizedPolynomial, Term, TryAddError,
@@ -80,12 +80,14 @@ where
 {
     fn derivative(&self) -> Self {
         let mut result = [N::zero(); SIZE];
-        let mut degree =
-            N::try_from_usize_cont(SIZE).expect("Degree has no lossless representation in N.");
-        if SIZE >= 1 {
-            for (&coeff_l, coeff_r) in self.coefficients.iter().zip(result[1..].iter_mut()) {
-                degree -= N::one();
+        let index = first_nonzero_index(&self.coefficients);
+        if index + 1 < SIZE {
+            let mut degree = N::try_from_usize_cont(SIZE - index - 1)
+                .expect("Degree has no lossless representation in N.");
+            let coeffs = self.coefficients[index..].iter();
+            for (&coeff_l, coeff_r) in coeffs.zip(result[index + 1..].iter_mut()) {
                 *coeff_r = degree * coeff_l;
+                degree -= N::one();
             }
         }
         ArrayPolynomial::new(result)
@@ -105,9 +107,10 @@ where
         + SubAssign,
 {
     fn integral(&self) -> Integral<N, Polynomial<N>> {
-        let mut degree =
-            N::try_from_usize_cont(SIZE).expect("Degree can not be losslessly represented.");
-        let mut terms = self.coefficients.to_vec();
+        let index = first_nonzero_index(&self.coefficients);
+        let mut degree = N::try_from_usize_cont(SIZE - index)
+            .expect("Degree can not be losslessly represented.");
+        let mut terms = self.coefficients[index..].to_vec();
         for term in terms.iter_mut() {
             *term /= degree;
             degree -= N::one();
-- 
2.43.0


From fcb13291de8735797af6e21c1b665c54c17dff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 26/26] fix: roots of polynomials with large roots were missed
 or made up

---
 src/polynomial/find_roots.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index ef7bbff..11f5542 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -258,8 +258,11 @@ fn sign_at(values: &[f64], point: f64) -> f64 {
 /// below that, in ascending order. Multiple roots may be found fewer times than they occur.
 fn real_roots(values: &[f64]) -> Vec<f64> {
     let degree = values.len();
-    // No root is further away from zero.
-    let bound = values.iter().fold(0f64, |max, val| max.max(val.abs())) + 1.;
+    // No root is this far away from zero, unless all roots are zero. Unlike a bound which is linear
+    // in the coefficients, this is proportional to the roots.
+    let bound = values.iter().enumerate().fold(0f64, |max, (i, val)| {
+        max.max(2. * val.abs().powf(1. / (i + 1) as f64))
+    });
     if degree == 0 || bound.is_infinite() {
         return vec![];
     }
-- 
2.43.0

