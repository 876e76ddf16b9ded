From 6329e1c13cf8595f928f3830efdee711f69194f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 01/13] fix: reject inner product proofs with differing numbers
 of L and R points

The verifier paired L and R with zip and then put all of R_vec into the
combined check, so surplus R points were neither bound to the transcript
nor aligned with their scalars (a proof of any statement could be forged)
and missing R points caused a panic.
---
 bulletproofs/src/inner_product_proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..dfac8d0 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -261,6 +261,11 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
+        // every round has exactly one L and one R
+        if self.R_vec.len() != lg_n {
+            return Err(ProofError::VerificationError);
+        }
+
         transcript.innerproduct_domain_sep(n as u64);
 
         // 1. Recompute x_k,...,x_1 based on the proof transcript
-- 
2.43.0


From 8df38297e2c96774c7f1d4795e6e377c2a6ba771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 02/13] fix: check the shape of a proof in release builds too

The number of T commitments, the unused T commitment and the absence of
second phase commitments were only debug-asserted: a short T made the
verifier panic and the unused elements could be altered freely.
---
 bulletproofs/src/r1cs/verifier.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..1a29abe 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,15 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // One commitment per degree; the unused one at op_degree is always the identity.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::FormatError);
+        }
+
+        // There are no second phase gates when vector commitments are used.
+        if ncomm != 0 && !(proof.A_I2.is_zero() && proof.A_O2.is_zero() && proof.S2.is_zero()) {
+            return Err(R1CSError::FormatError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
-- 
2.43.0


From ce49fd138c4da8b9272ca1988be9f9018102b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 03/13] fix: reject proofs with an unknown phase flag or
 trailing bytes

Any flag byte other than 1 was read as a one-phase proof and from_bytes
ignored whatever followed the proof.
---
 bulletproofs/src/r1cs/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..698125a 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -69,7 +69,13 @@ impl<C: AffineRepr> R1CSProof<C> {
     }
 
     pub fn from_bytes(slice: &[u8]) -> Result<R1CSProof<C>, R1CSError> {
-        Self::deserialize_compressed(slice).map_err(|_| R1CSError::FormatError)
+        let mut reader = slice;
+        let proof =
+            Self::deserialize_compressed(&mut reader).map_err(|_| R1CSError::FormatError)?;
+        if !reader.is_empty() {
+            return Err(R1CSError::FormatError);
+        }
+        Ok(proof)
     }
 }
 
@@ -147,8 +153,10 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
             )
-        } else {
+        } else if flag == ONE_PHASE_COMMITMENTS {
             (C::zero(), C::zero(), C::zero())
+        } else {
+            return Err(SerializationError::InvalidData);
         };
         Ok(Self {
             A_I1,
-- 
2.43.0


From baa0864103f84f2fbfa6da5b7a77fee9204b0eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 04/13] fix: align generator scalars when batching circuits of
 different sizes

batch_verify zipped the scalar vectors, truncating the longer one and
pairing H scalars with G scalars, so valid proofs of different padded
sizes were rejected.
---
 bulletproofs/src/r1cs/verifier.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 1a29abe..8bfca49 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -750,9 +750,22 @@ pub fn batch_verify<C: AffineRepr>(
         vt.proof_dependent_scalars,
         vt.proof_independent_scalars,
     );
-    let padded_n = (linear_combination.len() - 2) / 2;
+    let mut padded_n = (linear_combination.len() - 2) / 2;
 
     for mut vt in ver_iter {
+        // Align the scalars of G and H when the circuits have different sizes.
+        let vt_padded_n = (vt.proof_independent_scalars.len() - 2) / 2;
+        let common_n = std::cmp::max(padded_n, vt_padded_n);
+        for (scalars, n) in [
+            (&mut linear_combination, padded_n),
+            (&mut vt.proof_independent_scalars, vt_padded_n),
+        ] {
+            let zeros = vec![C::ScalarField::zero(); common_n - n];
+            scalars.splice(2 + n..2 + n, zeros.iter().copied());
+            scalars.extend(zeros);
+        }
+        padded_n = common_n;
+
         proof_points.append(&mut vt.proof_dependent_points);
 
         // Sample random scalar
-- 
2.43.0


From ac1a2be8651cd68f1305845f45893e679c2bf57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 05/13] fix: reject transactions with invalid signatures

Schnorr::verify reports an invalid signature as Ok(false), which was
unwrapped and ignored, so any signature was accepted.
---
 relations/src/coin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..a1a072e 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -664,7 +664,7 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        let valid_0 = Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -674,7 +674,7 @@ impl<
             },
         )
         .unwrap();
-        Schnorr::verify(
+        let valid_1 = Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -684,6 +684,7 @@ impl<
             },
         )
         .unwrap();
+        assert!(valid_0 && valid_1, "Invalid signature.");
     }
 }
 
-- 
2.43.0


From 5d806bb7e4434584bca6e24e6e8dfe8480ca3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 06/13] fix: check the length of membership paths in release
 builds and for payments

The length was only debug-asserted in one of the two ways to verify a path.
A longer path lets the prover descend from a leaf into children it committed
to itself, a shorter one presents an inner node as a leaf.
---
 relations/src/batched_curve_tree_verifier.rs | 10 +++++-----
 relations/src/curve_tree_verifier.rs         | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..aac2e07 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,11 +79,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..471526f 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,11 +69,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
-- 
2.43.0


From d9d8fd8b68849e0dffffcc81e2ee76b15f7972f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 07/13] fix: refuse to prove membership of an index beyond the
 tree's capacity

Such an index was reduced modulo the capacity and another leaf was proved.
---
 relations/src/curve_tree_prover.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/relations/src/curve_tree_prover.rs b/relations/src/curve_tree_prover.rs
index 58b0a15..f44d29a 100644
--- a/relations/src/curve_tree_prover.rs
+++ b/relations/src/curve_tree_prover.rs
@@ -80,6 +80,12 @@ impl<
         tree_index: usize,
         params: &SelRerandParameters<P0, P1>,
     ) -> CurveTreeWitnessPath<L, P0, P1> {
+        assert!(
+            index < L.pow(self.height() as u32),
+            "Leaf index out of bounds. Height: {}, Index: {}",
+            self.height(),
+            index
+        );
         let mut even_internal_nodes: Vec<CurveTreeWitness<L, P0, P1>> = Vec::new();
         let mut odd_internal_nodes: Vec<CurveTreeWitness<L, P1, P0>> = Vec::new();
 
-- 
2.43.0


From ab81c0d5049e28a736b704654aa343e597ea83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 08/13] fix: use the short Weierstrass equation in curve_check

The coefficient A was multiplied with x^2 instead of x. All curves used in
the repository have A = 0.
---
 relations/src/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..ec3946c 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,13 +11,13 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
+    // x^3 + A*x + B - y^2 = 0
     cs.constrain(
         LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
+            + x.scalar_mul(a)
             + b
             - y_squared,
     )
-- 
2.43.0


From 8082cf282fd88d32d6b26360995686831f57eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 09/13] hook: expose the H generators under cfg(cth_hooks)

---
 bulletproofs/src/generators.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/src/generators.rs b/bulletproofs/src/generators.rs
index 40f2219..4300e90 100644
--- a/bulletproofs/src/generators.rs
+++ b/bulletproofs/src/generators.rs
@@ -290,6 +290,14 @@ impl<'a, C: AffineRepr> BulletproofGensShare<'a, C> {
     }
 }
 
+#[cfg(cth_hooks)]
+impl<'a, C: AffineRepr> BulletproofGensShare<'a, C> {
+    /// Verification hook: the H generators of this party (see [`BulletproofGensShare::G`]).
+    pub fn hook_H(&self, n: usize) -> impl Iterator<Item = &'a C> {
+        self.H(n)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 757f4f19f2f940b30130b2f5c6fb919e29239139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 10/13] fix: choose degrees such that vector commitments can
 not falsify gates

A commitment may have components along both generator vectors, and the verifier
only sees the degree at which the whole commitment is added to l(x) and r(x).
With the previous degrees there was, for any number of vector commitments but
zero, a pair of commitments (or A_O and a commitment) whose degrees add up to
op_degree, so a dishonest prover could use the unintended component of the one to
add any multiple of the contents of the other to the gate equations, and thereby
prove that 2 * 3 = 7.
---
 bulletproofs/src/r1cs/mod.rs      | 20 +++++--
 bulletproofs/src/r1cs/prover.rs   | 92 +++++++------------------------
 bulletproofs/src/r1cs/verifier.rs |  8 +--
 bulletproofs/src/util.rs          |  6 +-
 4 files changed, 40 insertions(+), 86 deletions(-)

diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index 18b93b8..7c31ecd 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -16,21 +16,29 @@ pub use self::verifier::{batch_verify, VerificationTuple, Verifier};
 
 pub use crate::errors::R1CSError;
 
+/// The degree at which the terms of the satisfied constraint system are collected.
+fn op_degree(ncomm: usize) -> usize {
+    2 + 2 * ncomm
+}
+
+/// The degrees in l(x) and r(x) of the multiplier inputs, the multiplier outputs
+/// and of as many vector commitments as the op_degree permits.
+///
+/// A commitment may also contain components along the generators of r(x), which then occur in r(x)
+/// with the degree that the commitment has in l(x). The only degree at which both are intended is
+/// op_deg / 2, so all other commitments have degrees above it: their unintended
+/// components can not be multiplied with anything to end up at op_deg.
 fn op_splits(op_deg: usize) -> Vec<(usize, usize)> {
     debug_assert_eq!(op_deg % 2, 0);
     let mid = op_deg / 2;
 
     // the first two are special
-    let mut op_splits = Vec::with_capacity(op_deg);
+    let mut op_splits = Vec::with_capacity(mid + 1);
     op_splits.push((mid, mid));
     op_splits.push((op_deg, 0));
 
     // all other deg splits
-    for r_deg in 1..op_deg + 1 {
-        if r_deg == mid {
-            // already taken
-            continue;
-        }
+    for r_deg in 1..mid {
         let l_deg = op_deg - r_deg;
         op_splits.push((l_deg, r_deg));
     }
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..e440af7 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -514,8 +514,8 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         // number of commitments
         let ncomm = self.secrets.vec_open.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 + 2 * #comm
+        let op_degree = super::op_degree(ncomm);
 
         let ops = op_splits(op_degree);
         let veccom_ops = &ops[2..];
@@ -856,21 +856,18 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
 
         let mid_degree = op_degree / 2;
 
-        // 1 comm => op_degree = 2
-        // 2 comm => op_degree = 4
-        // 3 comm => op_degree = 4
-        // 4 comm => op_degree = 6
-        // 5 comm => op_degree = 6
+        // 1 comm => op_degree = 4
+        // 2 comm => op_degree = 6
+        // 3 comm => op_degree = 8
         // etc.
-        // op_degree = 2 + 2 * floor(#comm / 2)
+        // op_degree = 2 + 2 * #comm
 
         for (i, (sl, sr)) in sLsR.enumerate() {
             debug_assert!(i < self.secrets.a_L.len());
 
-            // The first (original) op_degree is 2, which permits a single vector commitment:
+            // The original op_degree is 2, which permits no vector commitment:
             //
             // Left:
-            // 0 : com1
             // 1 : aL + wR
             // 2 : aO
             // 3 : sL
@@ -878,77 +875,26 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             // Right:
             // 0 : Wo
             // 1 : aR + wL
-            // 2 : Wc1
             // 3 : sR
             //
-            // Since a_L and a_R must be at the same power, only even op_degrees are possible :(
-            // Hence the next valid op_degree is 4, which permits up to 3 vector commitments:
+            // Since a_L and a_R must be at the same power, only even op_degrees are possible, and since a
+            // commitment at degree d may have components in both l(x) and r(x) at degree d, at most one of
+            // d and op_degree - d may be used. So every vector commitment increases the op_degree by 2.
+            // With op_degree 6 there are 2 vector commitments:
             //
             // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : aL
-            // 3 : aO
-            // 4 : com3
-            // 5 : sL
-            //
-            // Right:
-            // 0 : Wc3
-            // 1 : Wo
-            // 2 : aR
-            // 3 : Wc2
-            // 4 : Wc1
-            // 5 : sR
-            //
-            // The next valid op_degree is 6, this permits up to 5 vector commitments:
-            //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : com3
-            // 3 : aL
-            // 4 : aO
-            // 5 : com4
-            // 6 : com5
+            // 3 : aL + wR
+            // 4 : com2
+            // 5 : com1
+            // 6 : aO
             // 7 : sL
             //
             // Right:
-            // 0 : Wc5
-            // 1 : Wc4
-            // 2 : Wo
-            // 3 : aR
-            // 4 : Wc3
-            // 5 : Wc2
-            // 6 : Wc1
+            // 0 : Wo
+            // 1 : Wc1
+            // 2 : Wc2
+            // 3 : aR + wL
             // 7 : sR
-            //
-            // Note that the x^0, x^1 term is zero.
-            // For every additional commitment r_poly degree increases by 2,
-            // but the number of zero terms increase by 1
-            //
-            // The op_degree is 6, the total degree is 11.
-            //
-            // Left:
-            // 1 : com1
-            // 2 : com2
-            // 3 : com3
-            // 4 : aL
-            // 5 : aO
-            // 6 : -
-            // 7 : -
-            // 8 : -
-            // 9 : sL
-            //
-            // Right:
-            // 3 : Wo
-            // 4 : aR
-            // 5 : Wc3
-            // 6 : Wc2
-            // 7 : Wc1
-            // 8 : -
-            // 9 : sR
-            //
-            // op_degree is 8
 
             // l_poly.0 = 0
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 8bfca49..f900c38 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -486,8 +486,8 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         // number of commitments
         let ncomm = self.vec_comms.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 + 2 * #comm
+        let op_degree = super::op_degree(ncomm);
         let t_poly_deg = 2 * (op_degree + 1);
         let ops = op_splits(op_degree);
 
@@ -558,10 +558,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         #[cfg(debug_assertions)]
         println!("verifier: x = {}", x);
 
-        // compute powers for vector commitments
-        // they are assigned the lowest powers and therefore the coefficients
-        // in the combination are correspondingly assigned the highest powers
-
         let mut rng = rand::thread_rng();
         let r = C::ScalarField::rand(&mut rng);
 
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..72a4116 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -20,11 +20,15 @@ pub struct VecPoly1<F: Field>(pub Vec<F>, pub Vec<F>);
 #[derive(ZeroizeOnDrop)]
 pub struct VecPoly3<F: Field>(pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>);
 
-pub const T_LABELS: [&[u8]; 41] = [
+pub const T_LABELS: [&[u8]; 75] = [
     b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10",
     b"T_11", b"T_12", b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20",
     b"T_21", b"T_22", b"T_23", b"T_24", b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30",
     b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
+    b"T_41", b"T_42", b"T_43", b"T_44", b"T_45", b"T_46", b"T_47", b"T_48", b"T_49", b"T_50",
+    b"T_51", b"T_52", b"T_53", b"T_54", b"T_55", b"T_56", b"T_57", b"T_58", b"T_59", b"T_60",
+    b"T_61", b"T_62", b"T_63", b"T_64", b"T_65", b"T_66", b"T_67", b"T_68", b"T_69", b"T_70",
+    b"T_71", b"T_72", b"T_73", b"T_74",
 ];
 
 /// The general case for Vector CP.
-- 
2.43.0


From 58fc2b4ee9b605d3e8fb862fd38401bfc1721acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:23 +0000
Subject: [PATCH 11/13] hook: expose the terms of linear combinations under
 cfg(cth_hooks)

---
 bulletproofs/src/r1cs/linear_combination.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/src/r1cs/linear_combination.rs b/bulletproofs/src/r1cs/linear_combination.rs
index 8e581aa..30ad264 100644
--- a/bulletproofs/src/r1cs/linear_combination.rs
+++ b/bulletproofs/src/r1cs/linear_combination.rs
@@ -208,6 +208,14 @@ impl<F: Field> LinearCombination<F> {
     }
 }
 
+#[cfg(cth_hooks)]
+impl<F: Field> LinearCombination<F> {
+    /// Verification hook: the terms of the linear combination.
+    pub fn hook_terms(&self) -> Vec<(Variable<F>, F)> {
+        self.terms.iter().copied().collect()
+    }
+}
+
 impl<F: Field> Neg for LinearCombination<F> {
     type Output = Self;
 
-- 
2.43.0


From 9843fbb333187cbdef02adc398a99f483358282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 12/13] fix: start the re-randomization from the first table
 lookup

---
 relations/src/rerandomize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..0f36f00 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -133,7 +133,12 @@ pub fn re_randomize<
         // Allocate coordinates for the accumulated witness
         let acc_i_x_lc: LinearCombination<F> = cs.allocate(acc_i_x).unwrap().into();
         let acc_i_y_lc: LinearCombination<F> = cs.allocate(acc_i_y).unwrap().into();
-        if i > 1 {
+        if i == 1 {
+            // The accumulation starts from the first table lookup:
+            // R_1 = (x_1, y_1)
+            cs.constrain(acc_i_x_lc.clone() - x_table);
+            cs.constrain(acc_i_y_lc.clone() - y_table);
+        } else {
             // Enforce addition constraint:
             // R_i = R_i-1 + (x_i, y_i)
             let prms = CurveAddition {
-- 
2.43.0


From f760b1b0f5da22042195851ec67cf3ee354d0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 13/13] fix: verify_spend_even commits to the two entries of a
 coin, as the prover does

With L entries the verifier of a height-1 payment padded its statement to
L gates while the prover's had 128, so that honest payments over trees of
large branching factor were rejected.
---
 relations/src/coin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index a1a072e..d34a3d2 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -589,7 +589,7 @@ fn verify_spend_even<
     curve_tree: &CurveTree<L, 1, P0, P1>,
 ) -> Variable<P0::ScalarField> {
     commitments.even_verifier_gadget(even_verifier, sr_parameters, curve_tree);
-    let vars = even_verifier.commit_vec(L, commitments.get_rerandomized_leaf());
+    let vars = even_verifier.commit_vec(2, commitments.get_rerandomized_leaf());
 
     // enforce equality of tag with hash of public key
     even_verifier.constrain(vars[1] - Coin::<P0, C>::pk_to_scalar(pk));
-- 
2.43.0

