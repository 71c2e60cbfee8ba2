From eba53717dd6e6799eb9ccd556e3bd2891be129e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 01/23] fix: kzg opening of the zero polynomial no longer
 panics

---
 kzg/src/scheme.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..9e30713 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -108,9 +108,7 @@ impl KzgScheme {
     pub fn open(&self, polynomial: &Poly, z: impl Into<Fr>) -> KzgOpening {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
-        let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        let new_poly = polynomial - &Poly::from_coefficients_slice(&[evaluation_at_z]);
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -131,10 +129,9 @@ impl KzgScheme {
     /// The opening at the specified point.
     pub fn open_vector(&self, coeffs: &[ScalarField], z: impl Into<Fr>) -> KzgOpening {
         let z = z.into();
-        let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
+        let polynomial: Poly = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        let polynomial = &polynomial - &Poly::from_coefficients_slice(&[evaluation_at_z]);
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From 1623b54013eaa5dee27ebdf96c1629af3b16697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 02/23] fix: adding kzg openings adds both witness points

---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..efe982d 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings made at the same point by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From 5f40de80ee06fc7c79abbc424da6672d754ba4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 03/23] fix: plonk prover derives its challenges with the hash
 function it was given

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From 5ac0a53991184ee6cf97668903197ead129e7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 04/23] fix: plonk verifier does not overflow on the degree
 given in a proof

---
 plonk/src/verifier.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..825b9fb 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -90,13 +90,12 @@ pub fn verify<T: Digest + Default>(
             * proof.bar_z_w,
     );
 
+    // The degree comes from the proof, so it must not be used in overflowing arithmetic.
+    let slice_shift =
+        evaluation_challenge.pow(BigInt::new([proof.degree as u64])) * evaluation_challenge;
     let d_line4 = (proof.t_lo_commit
-        + proof
-            .t_mid_commit
-            .mul(evaluation_challenge.pow(BigInt::new([proof.degree as u64 + 1])))
-        + proof
-            .t_hi_commit
-            .mul(evaluation_challenge.pow(BigInt::new([proof.degree as u64 * 2 + 2]))))
+        + proof.t_mid_commit.mul(slice_shift)
+        + proof.t_hi_commit.mul(slice_shift * slice_shift))
     .mul(z_h_e);
 
     let d = d_line1 + d_line2 - d_line3 - d_line4;
-- 
2.43.0


From cb467b991d33d177f1cb554f90cec2f9ada42217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/23] fix: circuits of a single gate can be compiled

---
 plonk/src/circuit.rs                               | 3 +--
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..546243c 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -148,8 +148,7 @@ impl Circuit {
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
 
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..9328343 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From d7918492f42a48fdae06c4a0718b6138a3dd3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 06/23] fix: plonk transcript binds the circuit and its public
 inputs

---
 plonk/src/prover.rs   |  4 ++--
 plonk/src/verifier.rs | 39 ++++++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 37917cf..a522252 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -14,10 +14,10 @@ use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
 use kzg::srs::Srs;
 
-use crate::challenge::ChallengeGenerator;
 use crate::compiled_circuit::CompiledCircuit;
 use crate::slice_polynomial::SlicePoly;
 use crate::types::Polynomial;
+use crate::verifier::statement_transcript;
 
 /// Struct representing a proof.
 pub struct Proof {
@@ -94,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<T>::default();
+    let mut challenge = statement_transcript::<T>(compiled_circuit, &scheme);
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index 825b9fb..f4c15dd 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(compiled_circuit, &proof, &scheme);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -183,17 +184,41 @@ fn get_circuit_commitment(
     )
 }
 
+/// Starts the transcript of a proof with the statement: the circuit and its public inputs.
+///
+/// Without it, a prover could choose the public inputs after it has seen every challenge.
+pub(crate) fn statement_transcript<T: Digest + Default>(
+    compiled_circuit: &CompiledCircuit,
+    scheme: &KzgScheme,
+) -> ChallengeGenerator<T> {
+    let (q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c) =
+        get_circuit_commitment(compiled_circuit, scheme);
+    let pi_c = scheme.commit(compiled_circuit.gate_constraints().pi_x());
+    let size_c = scheme.commit_para(Fr::from(compiled_circuit.size as u64));
+    ChallengeGenerator::from_commitments(&[
+        size_c,
+        q_m_c,
+        q_l_c,
+        q_r_c,
+        q_o_c,
+        q_c_c,
+        s_sigma_1_c,
+        s_sigma_2_c,
+        s_sigma_3_c,
+        pi_c,
+    ])
+}
+
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
+    compiled_circuit: &CompiledCircuit,
     proof: &Proof,
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
-    let commitments = [
-        proof.a_commit.clone(),
-        proof.b_commit.clone(),
-        proof.c_commit.clone(),
-    ];
-    let mut challenge = ChallengeGenerator::<T>::from_commitments(&commitments);
+    let mut challenge = statement_transcript::<T>(compiled_circuit, scheme);
+    challenge.feed(&proof.a_commit);
+    challenge.feed(&proof.b_commit);
+    challenge.feed(&proof.c_commit);
     let [beta, gamma] = challenge.generate_challenges();
     challenge.feed(&proof.z_commit);
     let [alpha] = challenge.generate_challenges();
-- 
2.43.0


From 9ccbc6ac912f1722f01f2a514b9f233c966db183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 07/23] fix: prover and verifier agree on negative and
 zero-padded constants in expressions

---
 .../common_preprocessed_input/cpi_parser.rs    |  3 ++-
 plonk/src/parser.rs                            | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..09f6bfa 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -10,6 +10,7 @@ use kzg::scheme::KzgScheme;
 use crate::common_preprocessed_input::cpi_circuit::CPICircuit;
 use crate::common_preprocessed_input::cpi_parser::TypeOfCircuit::Multiplication;
 use crate::constraint::{CopyConstraints, GateConstraints};
+use crate::parser::negate_term;
 
 /// Enum defining the type of circuit gate
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
@@ -142,7 +143,7 @@ impl CPIGenerator {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(negate_term(&result));
         split_list
             .into_iter()
             .map(|split_list| {
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..ac8271a 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -58,6 +58,14 @@ impl Wire {
     }
 }
 
+/// Negate a term, to move it to the other side of the equation
+pub(crate) fn negate_term(term: &str) -> String {
+    match term.strip_prefix('-') {
+        Some(term) => term.to_string(),
+        None => format!("-{}", term),
+    }
+}
+
 /// String to circuit parser
 ///
 /// See parse function for usage
@@ -109,7 +117,7 @@ impl Parser {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(negate_term(&result));
         split_list
             .into_iter()
             .map(|split_list| {
@@ -313,6 +321,7 @@ impl Parser {
         gate_set: &mut HashSet<Gate>,
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
     ) -> Fr {
+        let name = value;
         let mut is_negative = false;
         if &value[..1] == "-" {
             is_negative = true;
@@ -326,12 +335,9 @@ impl Parser {
                 eprintln!("value = {:#?}", value);
                 let constant = value.parse::<i32>().unwrap();
                 let wire = if is_negative {
-                    Wire::new(
-                        "-".to_string() + constant.to_string().as_str(),
-                        Fr::from(constant).neg(),
-                    )
+                    Wire::new(name.to_string(), Fr::from(constant).neg())
                 } else {
-                    Wire::new(constant.to_string(), Fr::from(constant))
+                    Wire::new(name.to_string(), Fr::from(constant))
                 };
                 #[cfg(test)]
                 println!("{:?} {}", wire, is_negative);
-- 
2.43.0


From 8a0ea9c1aebf42770bd8ccc8b93c8263e1f51998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 08/23] fix: negated variables in expressions stay tied to the
 variable

---
 .../common_preprocessed_input/cpi_parser.rs   |  7 +++----
 plonk/src/parser.rs                           | 21 ++++++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 09f6bfa..f642e32 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -10,7 +10,7 @@ use kzg::scheme::KzgScheme;
 use crate::common_preprocessed_input::cpi_circuit::CPICircuit;
 use crate::common_preprocessed_input::cpi_parser::TypeOfCircuit::Multiplication;
 use crate::constraint::{CopyConstraints, GateConstraints};
-use crate::parser::negate_term;
+use crate::parser::{negate_term, split_factors};
 
 /// Enum defining the type of circuit gate
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
@@ -147,9 +147,8 @@ impl CPIGenerator {
         split_list
             .into_iter()
             .map(|split_list| {
-                split_list
-                    .split('*')
-                    .map(|s| s.trim().to_string())
+                split_factors(&split_list)
+                    .into_iter()
                     .map(|s| {
                         self.check_constant(
                             &mut gate_list.borrow_mut(),
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index ac8271a..93c0802 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -66,6 +66,22 @@ pub(crate) fn negate_term(term: &str) -> String {
     }
 }
 
+/// Split a term into its factors
+///
+/// A negated variable is written as `-1` times the variable, so that it stays tied to the wire of
+/// the variable.
+pub(crate) fn split_factors(term: &str) -> Vec<String> {
+    term.split('*')
+        .map(|factor| factor.trim())
+        .flat_map(|factor| match factor.strip_prefix('-') {
+            Some(variable) if variable.parse::<i32>().is_err() => {
+                vec!["-1".to_string(), variable.to_string()]
+            }
+            _ => vec![factor.to_string()],
+        })
+        .collect()
+}
+
 /// String to circuit parser
 ///
 /// See parse function for usage
@@ -121,9 +137,8 @@ impl Parser {
         split_list
             .into_iter()
             .map(|split_list| {
-                split_list
-                    .split('*')
-                    .map(|s| s.trim().to_string())
+                split_factors(&split_list)
+                    .into_iter()
                     .map(|s| {
                         Wire::new(
                             s.clone(),
-- 
2.43.0


From a543107eb99500aeb68390be9f7ed1ec2e1e8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 09/23] fix: fri verifier checks Merkle paths against the
 committed layer roots

---
 fri/src/merkle_tree.rs |  2 +-
 fri/src/verifier.rs    | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..e535bb7 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -12,7 +12,7 @@ pub struct MerkleProof<F: PrimeField> {
     /// Hash values of the neighboring nodes.
     hash_proof: Vec<F>,
     /// Root value of the committed Merkle tree.
-    root: F,
+    pub(crate) root: F,
 }
 
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..4d2d198 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -16,9 +16,9 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
-        .into_iter()
+        .iter()
         .map(|root| {
-            transcript.digest(root);
+            transcript.digest(*root);
             transcript.generate_a_challenge()
         })
         .collect::<Vec<_>>();
@@ -39,6 +39,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            &merkle_roots,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -51,6 +52,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    merkle_roots: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
@@ -84,6 +86,10 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
+        if path.root != merkle_roots[i] || sym_path.root != merkle_roots[i] {
+            return Err(String::from("the path does not lead to the layer root!"));
+        }
+
         if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
             return Err(String::from("verify Merkle path failed!"));
         }
-- 
2.43.0


From e70ba79fe73d5205c43bbc621bcff9d5ea84d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 10/23] fix: fri verifier rejects proofs of the wrong shape

---
 fri/src/merkle_tree.rs |  2 +-
 fri/src/verifier.rs    | 43 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index e535bb7..ab92a72 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -10,7 +10,7 @@ pub struct MerkleProof<F: PrimeField> {
     /// Value of the leaf the prover wants to reveal.
     pub leaf_val: F,
     /// Hash values of the neighboring nodes.
-    hash_proof: Vec<F>,
+    pub(crate) hash_proof: Vec<F>,
     /// Root value of the committed Merkle tree.
     pub(crate) root: F,
 }
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index 4d2d198..92ea471 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -3,7 +3,7 @@ use ark_ff::PrimeField;
 use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
 use sha2::Digest;
 
-use crate::merkle_tree::verify_merkle_proof;
+use crate::merkle_tree::{verify_merkle_proof, MerkleProof};
 use crate::prover::{Decommitment, Proof};
 
 /// Verify proof of FRI prover of 2 phase
@@ -12,6 +12,8 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    check_shape(&proof)?;
+
     // regenerate random_r list
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
@@ -49,6 +51,45 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     Ok(())
 }
 
+/// Checks that the proof has the parts and sizes every honest proof has, so that no part of it is
+/// skipped and no size taken from it can be misused.
+fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
+    let layers = proof.layers_root.len();
+    let domain = <GeneralEvaluationDomain<F>>::new(proof.domain_size)
+        .ok_or_else(|| String::from("wrong domain size!"))?;
+    if domain.size() != proof.domain_size || proof.domain_size < 2 {
+        return Err(String::from("wrong domain size!"));
+    }
+    let depth = proof.domain_size.ilog2() as usize;
+    if layers == 0 || layers > depth {
+        return Err(String::from("wrong number of layers!"));
+    }
+    if proof.coset != F::GENERATOR {
+        return Err(String::from("wrong coset!"));
+    }
+    if proof.number_of_queries == 0 || proof.number_of_queries != proof.decommitment_list.len() {
+        return Err(String::from("wrong number of queries!"));
+    }
+
+    let right_paths = |paths: &[MerkleProof<F>]| {
+        paths.len() == layers
+            && paths
+                .iter()
+                .enumerate()
+                .all(|(i, path)| path.hash_proof.len() == depth - i)
+    };
+    for decommitment in &proof.decommitment_list {
+        if decommitment.evaluations.len() != layers
+            || decommitment.sym_evaluations.len() != layers
+            || !right_paths(&decommitment.auth_paths)
+            || !right_paths(&decommitment.sym_auth_paths)
+        {
+            return Err(String::from("wrong decommitment size!"));
+        }
+    }
+    Ok(())
+}
+
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
-- 
2.43.0


From f52bbc3b68dd33c3db7106e81208f95eec99dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 11/23] fix: fri folds only down to the degree bound, so high
 degrees are rejected

---
 fri/src/prover.rs   | 9 ++++++---
 fri/src/verifier.rs | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..f2cf3a1 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -67,7 +67,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
         domain_size /= 2;
     }
 
-    assert_eq!(poly.len(), 1);
+    assert!(poly.len() <= 1);
     let constant = poly.evaluate(&F::ZERO);
     transcript.digest(constant);
 
@@ -143,9 +143,12 @@ pub fn generate_proof<T: Digest + Default, F: PrimeField>(
     blowup_factor: usize,
     number_of_queries: usize,
 ) -> Proof<F> {
-    let domain_size = (poly.coeffs.len() * blowup_factor).next_power_of_two();
+    // Fold exactly until a polynomial of this length has become a constant: the domain left over
+    // is what shows that the degree was low.
+    let folded_len = poly.coeffs.len().next_power_of_two().max(2);
+    let domain_size = (folded_len * blowup_factor).next_power_of_two();
     let coset = F::GENERATOR;
-    let number_of_layers = domain_size.ilog2() as usize;
+    let number_of_layers = folded_len.ilog2() as usize;
 
     let (const_val, mut transcript, fri_layers) =
         folding_phase::<T, F>(poly, coset, domain_size, number_of_layers);
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index 92ea471..3d508df 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -61,7 +61,8 @@ fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
         return Err(String::from("wrong domain size!"));
     }
     let depth = proof.domain_size.ilog2() as usize;
-    if layers == 0 || layers > depth {
+    // Folding down to a domain of one point would accept any data, whatever its degree.
+    if layers == 0 || layers >= depth {
         return Err(String::from("wrong number of layers!"));
     }
     if proof.coset != F::GENERATOR {
-- 
2.43.0


From 42aed8ddb8a22bcc8c7a41b86253cb9c7bdfa9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 12/23] fix: folding witnesses of different length drops no
 error terms

---
 nova/src/nifs/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..4a36510 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -67,12 +67,12 @@ impl<T: Digest + Default> NIFS<T> {
         t: &[ScalarField],
         // rT: ScalarField,
     ) -> FWitness {
-        let new_e = fw1
-            .e
-            .iter()
-            .zip(t.iter())
-            .zip(&fw2.e)
-            .map(|((e1, t), e2)| *e1 + r * *t + r * r * *e2)
+        // An error vector may be shorter than the cross term (a trivial witness does not know the
+        // number of constraints): what is missing counts as zero.
+        let len = t.len().max(fw1.e.len()).max(fw2.e.len());
+        let at = |v: &[ScalarField], i: usize| v.get(i).copied().unwrap_or_default();
+        let new_e = (0..len)
+            .map(|i| at(&fw1.e, i) + r * at(t, i) + r * r * at(&fw2.e, i))
             .collect();
 
         let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
-- 
2.43.0


From 8e8298035c85d262804f4c3f17e111a6693e33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 13/23] fix: the trivial instance satisfies every constraint
 system

---
 nova/src/r1cs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..df9cd6b 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -79,7 +79,9 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    // With u = 1 the zero witness would not satisfy a system that has constant terms.
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From 87647ff532bca0b0b695c416fc52b6902ac5dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 14/23] fix: an IVC instance without public IO is refused, not
 a crash

---
 nova/src/circuit.rs          | 4 ++--
 nova/src/ivc/ivc_verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..d74764c 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -84,9 +84,9 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // be converted into a comparable type
             // Todo: Non-native field transform
 
-            let u_dot_x = u_i.x[0];
+            let u_dot_x = u_i.x.first();
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            if u_dot_x != Some(&hash_fr) {
                 return Err(String::from("Public IO is wrong "));
             }
 
diff --git a/nova/src/ivc/ivc_verifier.rs b/nova/src/ivc/ivc_verifier.rs
index 43e379f..722d842 100644
--- a/nova/src/ivc/ivc_verifier.rs
+++ b/nova/src/ivc/ivc_verifier.rs
@@ -46,7 +46,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> IVC<T, FC> {
             let hash_io = AugmentedCircuit::<T, FC>::hash_io(i, z_0, z_i, &big_u_i);
             let hash_fr =
                 ScalarField::from_le_bytes_mod_order(&hash_io.into_bigint().to_bytes_le());
-            if u_i.x[0] != hash_fr {
+            if u_i.x.first() != Some(&hash_fr) {
                 return Err(String::from("Verify failed: Public IO is wrong"));
             }
 
-- 
2.43.0


From 3f489d751b8e74e159a31ea94a1244477110b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 15/23] fix: an IVC step checks that the running instance is
 the committed one

---
 nova/src/circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index d74764c..2127b16 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -90,6 +90,11 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
                 return Err(String::from("Public IO is wrong "));
             }
 
+            // and that the running instance is the one hash_x was made for
+            if hash_x != Self::hash_io(self.i, &self.z_0, &self.z_i, big_u_i.unwrap()) {
+                return Err(String::from("Running instance is wrong"));
+            }
+
             // 2. check that u_i.comE = com_([0,...]) and u_i.u = 1
             if u_i.com_e != self.trivial_instance.com_e {
                 return Err(String::from("Commitment of E is wrong"));
-- 
2.43.0


From ddab8624322a72f5ce316c7371a674bd15ebe32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 16/23] fix: NIFS verifier checks that the folded instance
 comes from the two instances

---
 nova/src/nifs/nifs_verifier.rs | 5 +++++
 nova/src/r1cs/mod.rs           | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..92040ff 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -33,6 +33,11 @@ impl<T: Digest + Default> NIFS<T> {
         let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
         res.as_ref()?;
 
+        // verify that fi3 is what the two instances fold into.
+        if *fi3 != Self::verifier(proof.r, fi1, fi2, com_t) {
+            return Err(String::from("Verify: Folded instance is wrong"));
+        }
+
         // verify opening.
         res = Self::verify_opening(proof, fi3, scheme, transcript);
         res.as_ref()?;
diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index df9cd6b..0f6ff86 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -18,7 +18,7 @@ pub struct R1CS<F: PrimeField> {
 
 /// Create Committed Relaxed R1CS Instance structure with KZG commitment
 /// Todo: Need to impl a general-curve commitment.
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct FInstance {
     pub com_e: KzgCommitment,
     pub u: ScalarField,
-- 
2.43.0


From ea6dcd0ef5b6dd0db8f48ca8037af9f83c3821bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 17/23] fix: the folding challenge binds both instances and the
 cross term

---
 nova/src/circuit.rs            |  4 +---
 nova/src/nifs/mod.rs           | 19 +++++++++++++++++++
 nova/src/nifs/nifs_prover.rs   |  4 +---
 nova/src/nifs/nifs_verifier.rs | 13 +++++--------
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 2127b16..bf970b8 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -106,9 +106,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
-            transcript.feed_scalar_num(u_i.u);
-            transcript.feed_scalar_num(big_u_i.unwrap().u);
-            transcript.feed(com_t.unwrap());
+            NIFS::<T>::feed_fold(&mut transcript, u_i, big_u_i.unwrap(), com_t.unwrap());
             let [r] = transcript.generate_challenges();
 
             // 3.compute U_{i+1}
diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 4a36510..881577e 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -3,6 +3,7 @@ use std::marker::PhantomData;
 use std::ops::Mul;
 
 use crate::r1cs::{FInstance, FWitness, R1CS};
+use crate::transcript::Transcript;
 use crate::utils::{
     hadamard_product, matrix_vector_product, vec_add, vec_sub, vector_elem_product,
 };
@@ -57,6 +58,24 @@ impl<T: Digest + Default> NIFS<T> {
         t
     }
 
+    /// Feed everything the challenge r must depend on: both instances and the cross term.
+    pub(crate) fn feed_fold(
+        transcript: &mut Transcript<T>,
+        fi1: &FInstance,
+        fi2: &FInstance,
+        com_t: &KzgCommitment,
+    ) {
+        for fi in [fi1, fi2] {
+            transcript.feed(&fi.com_e);
+            transcript.feed(&fi.com_w);
+            for x in &fi.x {
+                transcript.feed_scalar_num(*x);
+            }
+            transcript.feed_scalar_num(fi.u);
+        }
+        transcript.feed(com_t);
+    }
+
     /// Fold two witnesses into one.
     /// E ← E1 + r · T + r^2 · E2
     /// W ← W1 + r · W2
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..af126e2 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,9 +29,7 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
-        transcript.feed_scalar_num(fi1.u);
-        transcript.feed_scalar_num(fi2.u);
-        transcript.feed(&com_t);
+        Self::feed_fold(transcript, fi1, fi2, &com_t);
         let [r] = transcript.generate_challenges();
 
         let new_witness = NIFS::<T>::fold_witness(r, fw1, fw2, &t);
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 92040ff..30bcdb4 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -30,7 +30,7 @@ impl<T: Digest + Default> NIFS<T> {
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // verify challenge.
-        let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
+        let mut res = Self::verify_challenge(proof.r, fi1, fi2, com_t, transcript);
         res.as_ref()?;
 
         // verify that fi3 is what the two instances fold into.
@@ -48,19 +48,16 @@ impl<T: Digest + Default> NIFS<T> {
     /// Verify challenge r via Fiat-Shamir
     pub fn verify_challenge(
         r: ScalarField,
-        fi1_u: ScalarField,
-        fi2_u: ScalarField,
+        fi1: &FInstance,
+        fi2: &FInstance,
         com_t: &KzgCommitment,
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // Recreate challenge r
-        transcript.feed_scalar_num(fi1_u);
-        transcript.feed_scalar_num(fi2_u);
-        transcript.feed(com_t);
-
+        Self::feed_fold(transcript, fi1, fi2, com_t);
         let [new_r] = transcript.generate_challenges();
 
-        // Verify that proof.r = Transcript(fi1.u, fi2.u, cmT)
+        // Verify that proof.r = Transcript(fi1, fi2, cmT)
         if new_r != r {
             return Err(String::from("Verify: Error in computing random r"));
         }
-- 
2.43.0


From 4af4f2ae4cd1c510994c9fe0023e016935c7b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 18/23] hook: make the challenge and merkle_tree modules
 reachable under cfg(zkp_sim)

---
 fri/src/lib.rs   | 5 +++++
 plonk/src/lib.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fri/src/lib.rs b/fri/src/lib.rs
index 1b9684c..c8b1252 100644
--- a/fri/src/lib.rs
+++ b/fri/src/lib.rs
@@ -1,7 +1,12 @@
+#![allow(unexpected_cfgs)]
 pub mod fiat_shamir;
 pub mod fields;
 mod fri_layer;
 mod hasher;
+// Seam for the simulator (RUSTFLAGS="--cfg zkp_sim"): no effect otherwise.
+#[cfg(not(zkp_sim))]
 mod merkle_tree;
+#[cfg(zkp_sim)]
+pub mod merkle_tree;
 pub mod prover;
 pub mod verifier;
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index e8b9714..7b8eaeb 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -1,4 +1,9 @@
+#![allow(unexpected_cfgs)]
+// Seam for the simulator (RUSTFLAGS="--cfg zkp_sim"): no effect otherwise.
+#[cfg(not(zkp_sim))]
 mod challenge;
+#[cfg(zkp_sim)]
+pub mod challenge;
 pub mod circuit;
 pub mod common_preprocessed_input;
 pub mod compiled_circuit;
-- 
2.43.0


From e8926696eeb826f12830d0ff3cad2e6d9e3f3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 19/23] hook: let the simulator alter the parts of a Merkle
 path under cfg(zkp_sim)

---
 fri/src/merkle_tree.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index ab92a72..cbc4c12 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,15 @@ pub struct MerkleProof<F: PrimeField> {
     pub(crate) root: F,
 }
 
+// Seam for the simulator (RUSTFLAGS="--cfg zkp_sim"): no effect otherwise.
+#[cfg(zkp_sim)]
+impl<F: PrimeField> MerkleProof<F> {
+    /// The neighbours and the root.
+    pub fn parts_mut(&mut self) -> (&mut Vec<F>, &mut F) {
+        (&mut self.hash_proof, &mut self.root)
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
-- 
2.43.0


From 1729761a5646581b7d93c1f44c9896a11ea9c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 20/23] fix: fri verifier refuses impossible domain sizes
 before building the domain

---
 fri/src/verifier.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index 3d508df..34d8849 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -55,9 +55,11 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 /// skipped and no size taken from it can be misused.
 fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
     let layers = proof.layers_root.len();
-    let domain = <GeneralEvaluationDomain<F>>::new(proof.domain_size)
-        .ok_or_else(|| String::from("wrong domain size!"))?;
-    if domain.size() != proof.domain_size || proof.domain_size < 2 {
+    // Checked first: building a domain of any other size may overflow.
+    if !proof.domain_size.is_power_of_two()
+        || proof.domain_size < 2
+        || proof.domain_size.ilog2() > F::TWO_ADICITY
+    {
         return Err(String::from("wrong domain size!"));
     }
     let depth = proof.domain_size.ilog2() as usize;
-- 
2.43.0


From f62a3dfbe29da8e4e7b7116274c0769b67a75aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 21/23] fix: powers of numbers, of longer names and of exponent
 zero were expanded wrongly

The exponent was applied to the last character of the factor only, the digits
of a numeric factor were taken as part of the exponent, and x^0 became x.
---
 .../common_preprocessed_input/cpi_parser.rs   | 38 +++++++++++++------
 plonk/src/parser.rs                           | 38 +++++++++++++------
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index f642e32..d1f560d 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -378,7 +378,8 @@ impl CPIGenerator {
     fn normalize(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the factor read last, which is what a power applies to
+        let mut factor = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -386,38 +387,53 @@ impl CPIGenerator {
                 continue;
             }
             if char == '^' {
+                if flag || factor.is_empty() {
+                    panic!("can't parse polynomial")
+                }
                 flag = true;
+                number_buffer = String::new();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
+                        Self::push_power(&mut result, &factor, &number_buffer);
                         flag = false;
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if matches!(char, '*' | '+' | '-' | '=') {
+                    factor = String::new();
+                } else {
+                    factor.push(char);
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    factor.push(char);
                     result.push(char);
                 }
             }
         }
         if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+            Self::push_power(&mut result, &factor, &number_buffer);
         }
         result
     }
+
+    /// Turn the `factor` at the end of `result` into its power
+    fn push_power(result: &mut String, factor: &str, exponent: &str) {
+        let exponent = exponent.parse::<i32>().unwrap();
+        if exponent == 0 {
+            result.truncate(result.len() - factor.len());
+            result.push('1');
+        }
+        for _ in 1..exponent {
+            result.push('*');
+            result.push_str(factor);
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 93c0802..140bb68 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -394,7 +394,8 @@ impl Parser {
     fn parse_string(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the factor read last, which is what a power applies to
+        let mut factor = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -402,38 +403,53 @@ impl Parser {
                 continue;
             }
             if char == '^' {
+                if flag || factor.is_empty() {
+                    panic!("can't parse polynomial")
+                }
                 flag = true;
+                number_buffer = String::new();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
+                        Self::push_power(&mut result, &factor, &number_buffer);
                         flag = false;
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if matches!(char, '*' | '+' | '-' | '=') {
+                    factor = String::new();
+                } else {
+                    factor.push(char);
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    factor.push(char);
                     result.push(char);
                 }
             }
         }
         if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+            Self::push_power(&mut result, &factor, &number_buffer);
         }
         result
     }
+
+    /// Turn the `factor` at the end of `result` into its power
+    fn push_power(result: &mut String, factor: &str, exponent: &str) {
+        let exponent = exponent.parse::<i32>().unwrap();
+        if exponent == 0 {
+            result.truncate(result.len() - factor.len());
+            result.push('1');
+        }
+        for _ in 1..exponent {
+            result.push('*');
+            result.push_str(factor);
+        }
+    }
 }
 
 //TODO: implement / operator
-- 
2.43.0


From fa92c3eea8bc24611b18bcaf6d9c14a8be404c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 22/23] fix: cancel repeated minus signs before a factor

`--3` was a wire of another value for the verifier's derivation than for the prover's, `---x`
made both derivations panic, and the wire of `--x` was not tied to that of `x`.
---
 plonk/src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 140bb68..0938865 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -69,15 +69,20 @@ pub(crate) fn negate_term(term: &str) -> String {
 /// Split a term into its factors
 ///
 /// A negated variable is written as `-1` times the variable, so that it stays tied to the wire of
-/// the variable.
+/// the variable. Signs in pairs cancel.
 pub(crate) fn split_factors(term: &str) -> Vec<String> {
     term.split('*')
         .map(|factor| factor.trim())
-        .flat_map(|factor| match factor.strip_prefix('-') {
-            Some(variable) if variable.parse::<i32>().is_err() => {
-                vec!["-1".to_string(), variable.to_string()]
+        .flat_map(|factor| {
+            let value = factor.trim_start_matches('-');
+            let is_negative = (factor.len() - value.len()) % 2 == 1;
+            if !is_negative {
+                vec![value.to_string()]
+            } else if value.parse::<i32>().is_ok() {
+                vec![format!("-{}", value)]
+            } else {
+                vec!["-1".to_string(), value.to_string()]
             }
-            _ => vec![factor.to_string()],
         })
         .collect()
 }
-- 
2.43.0


From 4b055a24ab5e7ec29a9f3a36011087c2ae4b7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:19 +0000
Subject: [PATCH 23/23] fix: folding keeps surplus public values and witness
 values instead of dropping them

---
 nova/src/nifs/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 881577e..3d32076 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -94,7 +94,7 @@ impl<T: Digest + Default> NIFS<T> {
             .map(|i| at(&fw1.e, i) + r * at(t, i) + r * r * at(&fw2.e, i))
             .collect();
 
-        let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
+        let new_w = add_scaled(&fw1.w, &fw2.w, r);
 
         FWitness { e: new_e, w: new_w }
     }
@@ -115,7 +115,7 @@ impl<T: Digest + Default> NIFS<T> {
         let new_com_w = KzgCommitment((fi1.com_w.0 + fi2.com_w.0.mul(r)).into_affine());
 
         let new_u = fi1.u + fi2.u * r;
-        let new_x = fi1.x.iter().zip(&fi2.x).map(|(a, b)| *a + *b * r).collect();
+        let new_x = add_scaled(&fi1.x, &fi2.x, r);
 
         FInstance {
             com_e: new_com_e,
@@ -125,3 +125,12 @@ impl<T: Digest + Default> NIFS<T> {
         }
     }
 }
+
+/// a + r · b. Nothing is dropped when one is longer: a pair whose sizes do not fit the constraint
+/// system must not become one that fits.
+fn add_scaled(a: &[ScalarField], b: &[ScalarField], r: ScalarField) -> Vec<ScalarField> {
+    let at = |v: &[ScalarField], i: usize| v.get(i).copied().unwrap_or_default();
+    (0..a.len().max(b.len()))
+        .map(|i| at(a, i) + at(b, i) * r)
+        .collect()
+}
-- 
2.43.0

