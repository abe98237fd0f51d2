From aa7b36962f564c51dfe5828bd3151ee1e5255291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 01/19] fix: run witness generators that depend on a public
 input

A generator whose dependency is a PublicInput target (is_zero, inv, div,
splits, ... of a public input) never became ready, because public input
targets were replaced by wires and dropped from the partial witness. The
honest prover then failed on a satisfiable circuit. Populate the target of
each public input as soon as its wire is known.
---
 src/plonk.rs   |  4 ++++
 src/witness.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..d210bc6 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -511,6 +511,7 @@ impl<C: HaloCurve> Circuit<C> {
         let mut copy_result = self.generate_copies(&witness, &witness.all_populated_targets());
         copy_result.copy_buffer_to_pi_gate(self.num_gates_without_pis);
         witness.extend(copy_result);
+        witness.populate_public_inputs(self.num_gates_without_pis, self.num_public_inputs);
 
         // Build a list of "pending" generators which are ready to run.
         let mut pending_generator_indices = HashSet::new();
@@ -545,6 +546,9 @@ impl<C: HaloCurve> Circuit<C> {
             copy_result.copy_buffer_to_pi_gate(self.num_gates_without_pis);
             populated_targets.extend(copy_result.all_populated_targets());
             witness.extend(copy_result);
+            populated_targets.extend(
+                witness.populate_public_inputs(self.num_gates_without_pis, self.num_public_inputs),
+            );
 
             // Refresh the set of pending generators.
             pending_generator_indices.clear();
diff --git a/src/witness.rs b/src/witness.rs
index 90eef6c..79cfdef 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -1,5 +1,5 @@
 use crate::util::transpose;
-use crate::{biguint_to_field, biguint_to_limbs, field_to_biguint, AffinePoint, AffinePointTarget, BigIntTarget, Curve, Field, ForeignFieldTarget, OrderingTarget, Target, Wire, LIMB_BITS, NUM_WIRES, NUM_ADVICE_WIRES, NUM_ROUTED_WIRES};
+use crate::{biguint_to_field, biguint_to_limbs, field_to_biguint, AffinePoint, AffinePointTarget, BigIntTarget, Curve, Field, ForeignFieldTarget, OrderingTarget, PublicInput, Target, Wire, LIMB_BITS, NUM_WIRES, NUM_ADVICE_WIRES, NUM_ROUTED_WIRES};
 use num::{BigUint, Zero};
 use std::{cmp::Ordering, collections::HashMap};
 
@@ -190,6 +190,29 @@ impl<F: Field> PartialWitness<F> {
         self.wire_values.extend(new_pis);
     }
 
+    /// Populates the `PublicInput`-type target of each public input whose wire is populated, so that
+    /// generators depending on a public input can run. Returns the newly populated targets.
+    pub(crate) fn populate_public_inputs(
+        &mut self,
+        offset: usize,
+        num_public_inputs: usize,
+    ) -> Vec<Target<F>> {
+        let mut populated = Vec::new();
+        for i in 0..num_public_inputs {
+            let pi = PublicInput::new(i);
+            let target = Target::PublicInput(pi);
+            if self.contains_target(target) {
+                continue;
+            }
+            let wire = pi.original_wire(offset);
+            if self.contains_wire(wire) {
+                self.set_target(target, self.get_wire(wire));
+                populated.push(target);
+            }
+        }
+        populated
+    }
+
     /// Looks through the keys and looks for targets in `BufferGate`s following a `PublicInputGate`.
     /// If some are found, add the corresponding non-routable wire in the `PublicInputGate` to the
     /// partial witness.
-- 
2.43.0


From bba9570aa1cdb4f02f5fd03159257be8e2ac0b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 02/19] fix: populate Base4SumGate's new accumulator in
 assert_all_base_4

No generator ever set the gate's new accumulator wire, so any circuit using
assert_all_base_4 on limbs that are not all zero could not be proved.
---
 src/circuit_builder.rs | 46 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..1b25851 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -167,20 +167,60 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
     /// Assert that each of the given targets is less than 4.
     pub fn assert_all_base_4(&mut self, limbs: &[Target<C::ScalarField>]) {
+        // Base4SumGate doesn't generate its new accumulator, so we do it here.
+        struct AccumulatorGenerator<F: Field> {
+            limbs: Vec<Target<F>>,
+            num_gate_limbs: usize,
+            acc_new: Target<F>,
+        }
+
+        impl<F: Field> WitnessGenerator<F> for AccumulatorGenerator<F> {
+            fn dependencies(&self) -> Vec<Target<F>> {
+                self.limbs.clone()
+            }
+
+            fn generate(
+                &self,
+                _constants: &[Vec<F>],
+                witness: &PartialWitness<F>,
+            ) -> PartialWitness<F> {
+                // The old accumulator and the unused limbs are zero.
+                let mut acc = F::ZERO;
+                for i in 0..self.num_gate_limbs {
+                    acc = acc.quadruple();
+                    if i < self.limbs.len() {
+                        acc = acc + witness.get_target(self.limbs[i]);
+                    }
+                }
+
+                let mut result = PartialWitness::new();
+                result.set_target(self.acc_new, acc);
+                result
+            }
+        }
+
         // We will leverage Base4SumGate, which checks that each of its limbs is base 4.
         for chunk in limbs.chunks(Base4SumGate::<C>::NUM_ROUTED_LIMBS) {
             let gate = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(gate));
 
-            // We don't care about Base4SumGate's accumulator wires, but we need to pass some
-            // (arbitrary) value to the old accumulator wire in order for the generator to run.
+            // We don't care about Base4SumGate's accumulator wires, but they must be consistent
+            // with the limbs. The old accumulator's value is arbitrary.
             self.generate_constant(
                 Target::Wire(Wire {
                     gate,
                     input: Base4SumGate::<C>::WIRE_ACC_OLD,
                 }),
-                C::ScalarField::ZERO, // This value is arbitrary.
+                C::ScalarField::ZERO,
             );
+            self.add_generator(AccumulatorGenerator {
+                limbs: chunk.to_vec(),
+                num_gate_limbs: Base4SumGate::<C>::NUM_LIMBS,
+                acc_new: Target::Wire(Wire {
+                    gate,
+                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
+                }),
+            });
 
             // Route each limb to one of Base4SumGate's routed limb wires.
             for (i, &limb) in chunk.iter().enumerate() {
-- 
2.43.0


From 3ba57b19bf53da0b6e7bcab35bdd9b450d8e1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 03/19] fix: keep buffered outputs when a challenger squeezes
 several challenges

get_challenge rebuilt the output buffer from the sponge state on every call,
so consecutive challenges were equal (beta == gamma, v == u == u_scaling),
which breaks the permutation argument.
---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..8e45fb1 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        if self.input_buffer.is_empty() {
+            // Keep the buffered outputs: rebuilding them would yield the same challenge twice.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        if self.input_buffer.is_empty() {
+            // Keep the buffered outputs: rebuilding them would yield the same challenge twice.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From 88f4ce82601a50639773d86db718453f3a8a44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 04/19] fix: check the public input count and the proof's shape
 in verify_proof

A proof was accepted with trailing zero public inputs added or dropped, and
proofs with missing vectors or out-of-range public inputs panicked the verifier.
---
 src/plonk_proof.rs |  2 +-
 src/verifier.rs    | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..0dda073 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -74,7 +74,7 @@ impl<C: HaloCurve> Proof<C> {
         challenger.observe_affine_point(self.c_pis_quotient);
         challenger.observe_elements(
             &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
+                .map_err(|_| anyhow!("Public inputs should fit in both fields"))?,
         );
         old_proofs
             .iter()
diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..aabcbc7 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,6 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
+use crate::plonk::{NUM_CONSTANTS, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
 
 pub const SECURITY_BITS: usize = 128;
@@ -58,6 +59,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
 ) -> Result<Option<OldProof<C>>> {
     // Verify that the proof parameters are valid.
     check_proof_parameters(proof)?;
+    check_proof_shape(public_inputs, proof, old_proofs, vk)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs = proof.get_challenges(public_inputs, old_proofs)?;
@@ -285,6 +287,45 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
     Ok(())
 }
 
+/// Checks that the number of public inputs and the length of each vector in the proof are the ones
+/// implied by the verification key. The transcript and the openings' reduction are both computed on
+/// concatenated vectors, so they don't bind these lengths by themselves.
+fn check_proof_shape<C: HaloCurve>(
+    public_inputs: &[C::ScalarField],
+    proof: &Proof<C>,
+    old_proofs: &[OldProof<C>],
+    vk: &VerificationKey<C>,
+) -> Result<()> {
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
+    ensure!(
+        proof.c_wires.len() == NUM_WIRES,
+        "Incorrect number of wire polynomial commitments."
+    );
+    ensure!(
+        proof.c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of t polynomial commitments."
+    );
+    for os in [&proof.o_local, &proof.o_right, &proof.o_below].iter() {
+        ensure!(
+            os.o_constants.len() == NUM_CONSTANTS
+                && os.o_plonk_sigmas.len() == NUM_ROUTED_WIRES
+                && os.o_wires.len() == NUM_WIRES
+                && os.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && os.o_old_proofs.len() == old_proofs.len(),
+            "Incorrect number of openings."
+        );
+    }
+    ensure!(
+        proof.halo_l.len() == log2_strict(vk.degree),
+        "Incorrect number of Halo rounds."
+    );
+
+    Ok(())
+}
+
 /// Check that the parameters in a proof are well-formed, i.e,
 /// that curve points are on the curve, and field elements are in range.
 /// Panics otherwise.
@@ -293,6 +334,7 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
@@ -312,6 +354,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public inputs quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
-- 
2.43.0


From 9ec4ef7211fb8da3178972a106d2ae17188fed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 05/19] fix: reject points at infinity with arbitrary
 coordinates in proofs

The transcript observes only the coordinates, so the infinity flag was not bound.
---
 src/verifier.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index aabcbc7..597ef16 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -367,6 +367,22 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         "A Halo right point is not on the curve."
     );
     ensure!(halo_g.is_valid(), "The Halo G point is not on the curve.");
+    // The transcript only binds coordinates, so a point at infinity must have its canonical ones.
+    ensure!(
+        [
+            c_wires.as_slice(),
+            &[*c_plonk_z],
+            c_plonk_t,
+            &[*c_pis_quotient],
+            halo_l,
+            halo_r,
+            &[*halo_g, schnorr_proof.r],
+        ]
+        .concat()
+        .iter()
+        .all(|p| !p.zero || (p.x.is_zero() && p.y.is_zero())),
+        "A point at infinity is not in canonical form."
+    );
     // Verify that the field elements are valid.
     ensure!(
         proof.all_opening_sets().iter().all(|v| {
-- 
2.43.0


From cb3582564dcd538c80571e4dabcb8e432bd7c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 06/19] fix: consume the whole encoding when reading a point at
 infinity

write emits the mask and the x-coordinate, read stopped after the mask, so the
next object on the stream was decoded from the leftover bytes.
---
 src/serialization.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..455a7cd 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,9 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        // The x-coordinate is written even for the point at infinity, so always consume it.
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +58,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
-- 
2.43.0


From c8b51eb1b1956e178b95509ec1ef20f45dd01870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 07/19] fix: pad plookup inputs with an element of the table

Padding with zero rejected lookups whenever zero was not in the table (and 0
was accepted as a member of any padded table).
---
 plookup/src/plookup.rs  | 24 ++++++++++++++----------
 plookup/src/verifier.rs |  4 ++--
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..23d2ab8 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -9,6 +9,7 @@ use plonky::plonk_util::reduce_with_powers;
 use plonky::polynomial::Polynomial;
 use plonky::util::log2_strict;
 use plonky::{blake_hash_usize_to_curve, fft_precompute, msm_precompute, AffinePoint, Field, HaloCurve};
+use std::cmp::max;
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -153,17 +154,20 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
 }
 
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
-    let d = t.len();
-    let f = if f.len() + 1 < d {
-        padded(f, d - 1)
-    } else {
-        f.to_vec()
-    };
-    let n = f.len().next_power_of_two() - 1;
+    let n = max(f.len() + 1, max(t.len(), 2)).next_power_of_two() - 1;
+
+    // Pad with an element of the table, so that padding doesn't change the set `t`.
+    let last = *t.last().expect("The table should be non-empty");
+    let mut f = f.to_vec();
+    f.resize(n, last);
+    (n, f, padded_table(t, n + 1))
+}
 
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
-    (n, f, t)
+/// Pad a table to have length `n` by repeating its last element.
+pub(crate) fn padded_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    let mut t = t.to_vec();
+    t.resize(n, *t.last().expect("The table should be non-empty"));
+    t
 }
 
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..8564b9a 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,7 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From a0573c52e6ad73cd4f13ea86afa829d2d1657d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 08/19] fix: eval_l_i is one at its own node

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 23d2ab8..6be9cb2 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -279,7 +279,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From 7b93e349db1dc091b9872e2288a0a0bd80c8182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 09/19] fix: make the plookup verifier check the shape of the
 proof and halo_g

An unchecked halo_g lets a prover open the commitments to anything; malformed
proofs panicked the verifier.
---
 plookup/src/proof.rs    | 13 +++----------
 plookup/src/verifier.rs | 43 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/plookup/src/proof.rs b/plookup/src/proof.rs
index 8ba2b5f..1bf08ae 100644
--- a/plookup/src/proof.rs
+++ b/plookup/src/proof.rs
@@ -77,15 +77,8 @@ impl<C: HaloCurve> PlookupProof<C> {
         challenger.observe_affine_point(self.c_quotient);
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
-        let openings_bf: Vec<_> = self
-            .openings
-            .to_vec()
-            .into_iter()
-            .map(|f| {
-                C::try_convert_s2b(f)
-                    .expect("For now, we assume that all opened values fit in both fields")
-            })
-            .collect();
+        let openings_bf = C::try_convert_s2b_slice(&self.openings.to_vec())
+            .map_err(|_| anyhow!("Conversion from scalar to base field failed."))?;
         challenger.observe_elements(&openings_bf);
         let (v_bf, u_bf, u_scaling_bf) = challenger.get_3_challenges();
         let v = C::try_convert_b2s(v_bf).map_err(|_| anyhow!(error_msg))?;
@@ -103,7 +96,7 @@ impl<C: HaloCurve> PlookupProof<C> {
             let u_j_squared = halo_n::<C>(r_bits);
             let u_j = u_j_squared
                 .square_root()
-                .expect("Prover should have ensured that n(r) is square");
+                .ok_or_else(|| anyhow!("Prover should have ensured that n(r) is square"))?;
             halo_us.push(u_j);
         }
 
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 8564b9a..8b489ee 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -2,13 +2,15 @@ use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
-use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
+use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use plonky::util::log2_strict;
 use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
 
 /// Verifies that a proof is valid for a set `t`.
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
+    check_proof_parameters(t, proof)?;
+
     let n = proof.n;
     let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
@@ -94,7 +96,44 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
         "Invalid IPA proof."
     );
 
-    // TODO: Add option to verify `halo_g` point.
+    // Verify that `halo_g = <s, G>`. Without it, nothing ties the openings to the commitments.
+    let msm_precomputation_2n2 = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
+    ensure!(
+        proof.halo_proof.halo_g
+            == pedersen_hash(&halo_s(&challs.halo_us), &msm_precomputation_2n2).to_affine(),
+        "Invalid G point."
+    );
+
+    Ok(())
+}
+
+/// Checks that the parameters in a proof are well-formed, i.e., that it has the right shape for the
+/// table and that its curve points are on the curve.
+fn check_proof_parameters<C: HaloCurve>(
+    t: &[C::ScalarField],
+    proof: &PlookupProof<C>,
+) -> Result<()> {
+    let halo_proof = &proof.halo_proof;
+    ensure!(!t.is_empty(), "The table is empty.");
+    ensure!(
+        halo_proof.halo_l.len() == halo_proof.halo_r.len()
+            && (2..C::ScalarField::TWO_ADICITY).contains(&halo_proof.halo_l.len())
+            && proof.n == (1 << (halo_proof.halo_l.len() - 1)) - 1
+            && t.len() <= proof.n + 1,
+        "The proof has the wrong size."
+    );
+    ensure!(
+        [
+            &[proof.c_f, proof.c_t, proof.c_h1, proof.c_h2, proof.c_z, proof.c_quotient],
+            halo_proof.halo_l.as_slice(),
+            halo_proof.halo_r.as_slice(),
+            &[halo_proof.halo_g, halo_proof.schnorr_proof.r],
+        ]
+        .concat()
+        .iter()
+        .all(|p| p.is_valid()),
+        "A point is not on the curve."
+    );
     Ok(())
 }
 
-- 
2.43.0


From 461ae79446f1f02a5ca62ad3b3c74fb8ecfee1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 10/19] fix: refuse old proofs with a zero Halo challenge
 instead of looping forever

---
 src/plonk.rs    | 10 +++++++++-
 src/verifier.rs |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index d210bc6..4289f51 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -3,7 +3,7 @@ use std::collections::{HashMap, HashSet};
 use std::fmt::Debug;
 use std::time::Instant;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use rayon::prelude::*;
 
 use crate::halo::batch_opening_proof;
@@ -87,6 +87,14 @@ impl<C: HaloCurve> Circuit<C> {
         old_proofs: &[OldProof<C>],
         blinding_commitments: bool,
     ) -> Result<Proof<C>> {
+        // Halo challenges are inverted, which doesn't terminate for zero.
+        ensure!(
+            old_proofs
+                .iter()
+                .all(|old_proof| old_proof.halo_us.iter().all(|u| u.is_nonzero())),
+            "An old proof has a zero Halo challenge."
+        );
+
         let mut challenger = Challenger::new(self.security_bits);
 
         // Convert the witness both to coefficient form and a degree-8n LDE.
diff --git a/src/verifier.rs b/src/verifier.rs
index 597ef16..be2c81d 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -322,6 +322,13 @@ fn check_proof_shape<C: HaloCurve>(
         proof.halo_l.len() == log2_strict(vk.degree),
         "Incorrect number of Halo rounds."
     );
+    // Halo challenges are inverted, which doesn't terminate for zero.
+    ensure!(
+        old_proofs
+            .iter()
+            .all(|old_proof| old_proof.halo_us.iter().all(|u| u.is_nonzero())),
+        "An old proof has a zero Halo challenge."
+    );
 
     Ok(())
 }
-- 
2.43.0


From 95aa9c9f03b830172a53bd66c6d7f692367d86c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 11/19] fix: refuse point encodings with unknown mask bits

---
 src/serialization.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index 455a7cd..de88a47 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,9 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        if mask > 3 {
+            return Err(Error::new(ErrorKind::Other, "Invalid point mask"));
+        }
         // The x-coordinate is written even for the point at infinity, so always consume it.
         let mut buf = vec![0u8; C::BaseField::BYTES];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 068919478dc37e65b1a3c0d84fb8d03808f87ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 12/19] fix: refuse verification keys with an impossible degree
 or gate count instead of crashing

---
 src/verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index be2c81d..be605fb 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -296,6 +296,14 @@ fn check_proof_shape<C: HaloCurve>(
     old_proofs: &[OldProof<C>],
     vk: &VerificationKey<C>,
 ) -> Result<()> {
+    ensure!(
+        vk.degree.is_power_of_two(),
+        "The degree is not a power of two."
+    );
+    ensure!(
+        vk.num_gates_without_pis <= vk.degree,
+        "The public input gates don't fit in the circuit."
+    );
     ensure!(
         public_inputs.len() == vk.num_public_inputs,
         "Incorrect number of public inputs."
-- 
2.43.0


From 3fb863f6451c80f425f9d22ecf2fcbb760c2ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 13/19] fix: polynomial division of sparse, zero or zero-padded
 operands

---
 src/polynomial.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..a433fc6 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -248,7 +249,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b.iter().take(b_degree + 1).enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
@@ -272,7 +273,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -287,6 +288,8 @@ impl<F: Field> Polynomial<F> {
             if b.len() > l {
                 b.drain(l..);
             }
+            // Each step contributes exactly `l` coefficients, including leading zeros.
+            b.pad(l);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -297,12 +300,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
@@ -312,11 +316,11 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            let q_len = a_degree - b_degree + 1;
+            let mut rev_q = rev_b_inv.mul(&self.rev()[..q_len].to_vec().into());
+            // `rev_q` must keep its zero coefficients: they are the low-order ones of the quotient.
+            rev_q.0.resize(q_len, F::ZERO);
+            let mut q = Self(rev_q.0.into_iter().rev().collect());
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From aa98d418a15c1b63dfb539e053c3722315358cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 14/19] fix: sort plookup witnesses along tables with repeated
 elements

---
 plookup/src/plookup.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 6be9cb2..668d3fe 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -172,12 +172,25 @@ pub(crate) fn padded_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
 
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
 /// and elements of `f` appear in the same order as elements of `t`.
+/// If an element occurs several times in `t`, each of these occurrences is matched by one in `f`,
+/// and the remaining copies go next to the first one, so that `t` stays a subsequence of `f`.
 fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
-    f.sort_by(|a, b| {
-        let i = t.iter().position(|x| x == a).unwrap();
-        let j = t.iter().position(|x| x == b).unwrap();
-        i.cmp(&j)
-    });
+    let mut used = vec![false; t.len()];
+    let mut keyed = f
+        .iter()
+        .map(|&a| {
+            let i = (0..t.len())
+                .rev()
+                .find(|&i| t[i] == a && !used[i])
+                .unwrap_or_else(|| t.iter().position(|x| *x == a).unwrap());
+            used[i] = true;
+            (i, a)
+        })
+        .collect::<Vec<_>>();
+    keyed.sort_by_key(|&(i, _)| i);
+    for (a, (_, b)) in f.iter_mut().zip(keyed) {
+        *a = b;
+    }
 }
 
 /// Computes the Plookup grand product polynomial.
-- 
2.43.0


From 7b5f478908b66756c1dc0fb4214100ea83e3195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:16 +0000
Subject: [PATCH 15/19] fix: bind the old proofs' Halo challenges into the
 transcript

---
 src/plonk.rs       | 9 +++++----
 src/plonk_proof.rs | 9 ++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index 4289f51..5b8ccb9 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -256,10 +256,11 @@ impl<C: HaloCurve> Circuit<C> {
             &C::ScalarField::try_convert_all(&public_inputs)
                 .expect("Public inputs should fit in both fields"),
         );
-        // Observe the old proofs' `G` points.
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        // Observe the old proofs' `G` points and Halo challenges.
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            challenger.observe_elements(&C::try_convert_s2b_slice(&old_proof.halo_us)?);
+        }
         // Generate a random `zeta` from the transcript.
         let zeta_bf = challenger.get_challenge();
         let zeta_sf =
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 0dda073..9df3e74 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -76,9 +76,12 @@ impl<C: HaloCurve> Proof<C> {
             &C::ScalarField::try_convert_all(public_inputs)
                 .map_err(|_| anyhow!("Public inputs should fit in both fields"))?,
         );
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            challenger.observe_elements(
+                &C::try_convert_s2b_slice(&old_proof.halo_us).map_err(|_| anyhow!(error_msg))?,
+            );
+        }
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
         for os in self.all_opening_sets().iter() {
-- 
2.43.0


From 332875753118fdc474665ea079c23e07580bdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 16/19] fix: create the MDS matrix cache without entropy, whose
 failure poisoned it for good

---
 src/mds.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mds.rs b/src/mds.rs
index a8fc6eb..8086639 100644
--- a/src/mds.rs
+++ b/src/mds.rs
@@ -2,15 +2,16 @@ use crate::Field;
 use std::any::TypeId;
 use once_cell::sync::Lazy;
 use std::sync::Mutex;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::marker::PhantomData;
 
-static CACHED_MDS_MATRICES: Lazy<Mutex<HashMap<MdsMatrixKey, UnparameterizedMdsMatrix>>> = Lazy::new(|| {
-    Mutex::new(HashMap::new())
+static CACHED_MDS_MATRICES: Lazy<Mutex<BTreeMap<MdsMatrixKey, UnparameterizedMdsMatrix>>> = Lazy::new(|| {
+    // Unlike a `HashMap`, this needs no entropy to create. A panic in here would poison the cache for good.
+    Mutex::new(BTreeMap::new())
 });
 
 /// A key for looking up a cached MDS matrix.
-#[derive(Eq, PartialEq, Hash)]
+#[derive(Eq, PartialEq, Ord, PartialOrd)]
 struct MdsMatrixKey {
     field_type_id: TypeId,
     size: usize,
-- 
2.43.0


From 75aa3086299e061ba1cd7d50cc5b551b66e0477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 17/19] fix: bind the public inputs into the transcript before
 alpha, which combines them

---
 src/plonk.rs       | 22 ++++++++++++----------
 src/plonk_proof.rs |  8 ++++----
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index 5b8ccb9..23a7ad3 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -125,6 +125,17 @@ impl<C: HaloCurve> Circuit<C> {
             values_to_polynomials(&wire_values_by_wire_no_pis, &self.fft_precomputation_n)
         };
 
+        let public_inputs = (0..self.num_public_inputs)
+            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
+            .collect::<Vec<_>>();
+
+        // Observe the public inputs before any challenge is drawn. In particular, `alpha`, which combines
+        // the public inputs of a gate, must depend on them.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
+
         // Generate a random beta and gamma from the transcript.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_wires));
@@ -242,20 +253,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points and Halo challenges.
         for old_proof in old_proofs {
             challenger.observe_affine_point(old_proof.halo_g);
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 9df3e74..03c4b28 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -63,6 +63,10 @@ impl<C: HaloCurve> Proof<C> {
     ) -> Result<ProofChallenge<C>> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs)
+                .map_err(|_| anyhow!("Public inputs should fit in both fields"))?,
+        );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
@@ -72,10 +76,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .map_err(|_| anyhow!("Public inputs should fit in both fields"))?,
-        );
         for old_proof in old_proofs {
             challenger.observe_affine_point(old_proof.halo_g);
             challenger.observe_elements(
-- 
2.43.0


From dfda9481e9eed44eaf342c44bd8b1f015326e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 18/19] fix: multiplying a big integer without limbs, which is
 zero, indexed out of bounds

---
 src/circuit_bigint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..e010298 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -349,6 +349,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         let x_n = x.num_limbs();
         let y_n = y.num_limbs();
 
+        // A number without limbs is zero, and so is its product with anything.
+        if x_n == 0 || y_n == 0 {
+            return BigIntTarget::zero();
+        }
+
         let mut result_digits = Vec::new();
         let mut carry: BigIntTarget<C::ScalarField> = BigIntTarget::zero();
 
-- 
2.43.0


From 45a7520e0cc8c9e186ae8851462691ecec079369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 19/19] fix: big-integer products whose top digits are known to
 be zero indexed out of bounds

---
 src/circuit_bigint.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index e010298..28fa876 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -376,9 +376,15 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
 
             let sum_of_limb_products_bigint = self.target_to_bigint(&sum_of_limb_products);
-            let (first, rest) = sum_of_limb_products_bigint.split_smallest_limb();
-            result_digits.push(first);
-            carry = rest;
+            if sum_of_limb_products_bigint.num_limbs() == 0 {
+                // The bounds tell us that this digit, and the carry, can only be zero.
+                result_digits.push(self.zero_wire());
+                carry = BigIntTarget::zero();
+            } else {
+                let (first, rest) = sum_of_limb_products_bigint.split_smallest_limb();
+                result_digits.push(first);
+                carry = rest;
+            }
         }
 
         // Add any remaining carry digits.
-- 
2.43.0

