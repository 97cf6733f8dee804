From 15ed19a810bab60b292d611111ba0fcf24eaddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 01/11] fix: report too short pairing powers as an error
 instead of indexing past their end

---
 src/encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index a48f92b..eabde18 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -548,12 +548,12 @@ impl<E: Pairing> Encryption<E> {
         p: PairingOutput<E>,
         pairing_powers: &[Vec<PairingOutput<E>>],
     ) -> crate::Result<CHUNK_TYPE> {
-        if pairing_powers.len() < chunk_index {
+        if pairing_powers.len() <= chunk_index {
             return Err(SaverError::InvalidPairingPowers);
         }
         for j in 1..=chunk_max_val {
             let j = j as usize - 1;
-            if pairing_powers[chunk_index].len() < j {
+            if pairing_powers[chunk_index].len() <= j {
                 return Err(SaverError::InvalidPairingPowers);
             }
             if pairing_powers[chunk_index][j] == p {
-- 
2.43.0


From da28a928e876636480ebe2e64171c854b1cd0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 02/11] fix: refuse to add ciphertexts of different lengths

---
 src/encryption.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index eabde18..210e230 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -459,6 +459,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
    
         let n = ct1.len();
+        if n != ct2.len() {
+            return Err(SaverError::VectorShorterThanExpected(n, ct2.len()));
+        }
 
         let mut ct = vec![];
 
-- 
2.43.0


From 5be87d072e0bfa3376528906ae8a6dcfdca65aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 03/11] fix: refuse re-encryption shares whose length does not
 fit the ciphertext, key or other share

---
 src/encryption.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index 210e230..1c2a8f9 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -399,6 +399,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
         let n = c.len();
+        if n != sk.s.len() {
+            return Err(SaverError::IncompatibleDecryptionKey(n, sk.s.len()));
+        }
         // r
         let rho = E::ScalarField::rand(rng);
         // g * r
@@ -421,6 +424,9 @@ impl<E: Pairing> Encryption<E> {
         w2: &[E::G1Affine],
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
+        if w1.len() != w2.len() {
+            return Err(SaverError::VectorShorterThanExpected(w1.len(), w2.len()));
+        }
         let mut w_combined = vec![];
         // w_combined = w1 + w2
         for i in 0..w1.len(){
@@ -441,6 +447,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
         
         let n = c.len();
+        if n != w.len() {
+            return Err(SaverError::VectorShorterThanExpected(n, w.len()));
+        }
 
         let mut ct = vec![];
         // c[0] = g_r
-- 
2.43.0


From b4780a52c82b7436fa8115282ea6a799d2dad5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 04/11] fix: return an error for an empty batch or a wrong
 number of batching coefficients

---
 src/encryption.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 1c2a8f9..0eb44c4 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -255,7 +255,15 @@ impl<E: Pairing> Encryption<E> {
         ek: impl Into<PreparedEncryptionKey<E>>,
         gens: impl Into<PreparedEncryptionGens<E>>,
     ) -> crate::Result<()> {
-        assert_eq!(r_powers.len(), ciphertexts.len());
+        if ciphertexts.is_empty() {
+            return Err(SaverError::VectorShorterThanExpected(1, 0));
+        }
+        if r_powers.len() != ciphertexts.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                ciphertexts.len(),
+                r_powers.len(),
+            ));
+        }
         let ek = ek.into();
         let gens = gens.into();
         let expected_count = ek.supported_chunks_count()? as usize;
-- 
2.43.0


From f342a8d368841f48b6602dd7effd651bf25eb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 05/11] fix: refuse to compose chunks that exceed the chunk
 size

---
 src/utils.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index ffd5d31..14871f7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -64,15 +64,23 @@ pub fn compose<F: PrimeField>(decomposed: &[CHUNK_TYPE], chunk_bit_size: u8) ->
             if (decomposed.len() % 2) == 1 {
                 return Err(SaverError::InvalidDecomposition);
             }
+            if decomposed.iter().any(|c| *c > 15) {
+                return Err(SaverError::InvalidDecomposition);
+            }
             let mut bytes = Vec::<u8>::with_capacity(decomposed.len() / 2);
             for nibbles in decomposed.chunks(2) {
                 bytes.push(((nibbles[0] << 4) + nibbles[1]) as u8);
             }
             Ok(F::from_be_bytes_mod_order(&bytes))
         }
-        8 => Ok(F::from_be_bytes_mod_order(
-            &decomposed.iter().map(|b| *b as u8).collect::<Vec<u8>>(),
-        )),
+        8 => {
+            if decomposed.iter().any(|c| *c > 255) {
+                return Err(SaverError::InvalidDecomposition);
+            }
+            Ok(F::from_be_bytes_mod_order(
+                &decomposed.iter().map(|b| *b as u8).collect::<Vec<u8>>(),
+            ))
+        }
         16 => {
             let mut bytes = Vec::<u8>::with_capacity(decomposed.len() * 2);
             for byte_2 in decomposed {
-- 
2.43.0


From 3039035dc0cc84ed6f7ec2b4a566baba192526ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 06/11] fix: refuse partial keys and secrets of different sizes
 when combining keys

---
 src/keygen.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index dd26e39..25eb74e 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -363,9 +363,12 @@ pub fn combineEKs<E: Pairing>(
     eks: &[FEncryptionKeyPartial<E>],
 ) -> FEncryptionKeyPartial<E> {
 
-    // [TODO]: add check for ek X,Y,Z sizes on all eks
-
     let mut ek = eks[0].clone();
+    for e in eks {
+        assert_eq!(e.X.len(), ek.X.len());
+        assert_eq!(e.Y.len(), ek.X.len());
+        assert_eq!(e.Z.len(), ek.X.len() + 1);
+    }
 
     // ek_combined = ek_1 + ek_2 + ... + ek_n
     for i in 1..eks.len() {
@@ -397,6 +400,7 @@ pub fn genP1share<E: Pairing>(
     ek: &FEncryptionKeyPartial<E>,
     sk: &SecretKeyST<E>,
 ) -> P1share<E> {
+    assert_eq!(sk.t.len(), ek.X.len() + 1);
     // g*delta*t_0
     let delta_g_t = ek.X_0.mul_bigint(sk.t[0].into_bigint());
     // {X_i*t_(i+1)}, i=0..n
-- 
2.43.0


From bcc1eb8abe0c8caf67a57b609e2a7d6445d568cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 07/11] fix: refuse keys for more chunks than the chunk counter
 can hold

---
 src/keygen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 25eb74e..80c5279 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -179,7 +179,7 @@ macro_rules! impl_enc_key_funcs {
             if self.Z.len() != (n + 1) {
                 return Err(SaverError::MalformedEncryptionKey(self.Z.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedEncryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
@@ -202,7 +202,7 @@ macro_rules! impl_dec_key_funcs {
             if self.V_2.len() != n {
                 return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedDecryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
-- 
2.43.0


From 08bf626c976bacf8df12f6b43217d12db427efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 08/11] fix: return an error when there are too few generators
 for pairing powers

---
 src/keygen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index 80c5279..442ffb3 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -285,6 +285,9 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
+        if n > g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(n, g_i.len()));
+        }
         let chunk_max_val = (1 << chunk_bit_size) - 1;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
-- 
2.43.0


From 32c8f3da322f0ba8a2f5a770c5fe80b13829b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 09/11] fix: refuse a commitment key whose length does not fit
 the message

---
 src/commitment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commitment.rs b/src/commitment.rs
index d0fcb4e..50a42d0 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -1,4 +1,5 @@
 use crate::{
+    error::SaverError,
     setup::ChunkedCommitmentGens,
     utils::{chunks_count, decompose, multiply_field_elems_with_same_group_elem},
     serde_utils::*
@@ -75,6 +76,12 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         comm_key: &[G],
     ) -> crate::Result<G> {
         let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
+        if comm_key.len() != decomposed.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                decomposed.len(),
+                comm_key.len(),
+            ));
+        }
         Ok(G::Group::msm_bigint(comm_key, &decomposed).into_affine())
     }
 
-- 
2.43.0


From e076d0c1ad84ea917740bee30f68916edafa55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 10/11] fix: search exactly the requested range when its width
 is zero or exceeds the chunk type

---
 src/encryption.rs | 14 +++++++-------
 src/keygen.rs     |  4 ++--
 src/utils.rs      | 10 ++++++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 0eb44c4..b745931 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -325,7 +325,7 @@ impl<E: Pairing> Encryption<E> {
         let c_0_rho = c_0.mul_bigint((-sk.0).into_bigint());
         let c_0_rho_prepared = E::G1Prepared::from(c_0_rho.into_affine());
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = utils::chunk_max_value(chunk_bit_size);
         let pairing_powers = if let Some(p) = pairing_powers { p } else { &[] };
         for i in 0..n {
             let p = E::multi_pairing(
@@ -341,14 +341,14 @@ impl<E: Pairing> Encryption<E> {
                 // Precomputed powers are not provided, compute the necessary pairings
                 let g_i_v_i = E::pairing(E::G1Prepared::from(g_i[i]), dk.V_2[i].clone());
                 decrypted_chunks.push(Self::solve_discrete_log(
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     g_i_v_i,
                     p,
                 )?);
             } else {
                 decrypted_chunks.push(Self::solve_discrete_log_using_pairing_powers(
                     i,
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     p,
                     pairing_powers,
                 )?);
@@ -508,14 +508,14 @@ impl<E: Pairing> Encryption<E> {
         .collect::<Vec<_>>();
 
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = utils::chunk_max_value(chunk_bit_size);
         for i in 0..n {
             if gi_mi[i].is_zero() {
                 decrypted_chunks.push(0);
                 continue;
             }
             decrypted_chunks.push(Self::solve_discrete_log_for_g(
-                chunk_max_val as CHUNK_TYPE,
+                chunk_max_val,
                 &g_i[i],
                 &gi_mi[i],
             )?)
@@ -529,7 +529,7 @@ impl<E: Pairing> Encryption<E> {
         g_i_v_i: &E::G1Affine,
         p: &E::G1Affine,
     ) -> crate::Result<CHUNK_TYPE> {
-        if p == g_i_v_i {
+        if chunk_max_val > 0 && p == g_i_v_i {
             return Ok(1);
         }
         let mut cur = g_i_v_i.clone();
@@ -548,7 +548,7 @@ impl<E: Pairing> Encryption<E> {
         g_i_v_i: PairingOutput<E>,
         p: PairingOutput<E>,
     ) -> crate::Result<CHUNK_TYPE> {
-        if p == g_i_v_i {
+        if chunk_max_val > 0 && p == g_i_v_i {
             return Ok(1);
         }
         let mut cur = g_i_v_i;
diff --git a/src/keygen.rs b/src/keygen.rs
index 442ffb3..6f845f7 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -20,7 +20,7 @@ use zeroize::{Zeroize, ZeroizeOnDrop};
 #[cfg(feature = "parallel")]
 use rayon::prelude::*;
 
-use crate::{error::SaverError, saver_groth16, setup::EncryptionGens, utils::{chunks_count, multiply_field_elems_with_same_group_elem}, serde_utils::*};
+use crate::{error::SaverError, saver_groth16, setup::EncryptionGens, utils::{chunk_max_value, chunks_count, multiply_field_elems_with_same_group_elem}, serde_utils::*};
 
 /// Used to decrypt
 #[serde_as]
@@ -288,7 +288,7 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         if n > g_i.len() {
             return Err(SaverError::VectorShorterThanExpected(n, g_i.len()));
         }
-        let chunk_max_val = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = chunk_max_value(chunk_bit_size);
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
             // Powers of `g_i_v_i` will be created
diff --git a/src/utils.rs b/src/utils.rs
index 14871f7..e66f684 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -25,6 +25,16 @@ pub fn chunks_count<F: PrimeField>(chunk_bit_size: u8) -> u8 {
 
 pub type CHUNK_TYPE = u16;
 
+/// The largest value searched for when decrypting a chunk of `chunk_bit_size` bits; a search range wider
+/// than the chunk type covers all of the chunk type.
+pub fn chunk_max_value(chunk_bit_size: u8) -> CHUNK_TYPE {
+    if (chunk_bit_size as u32) < CHUNK_TYPE::BITS {
+        (1 << chunk_bit_size) - 1
+    } else {
+        CHUNK_TYPE::MAX
+    }
+}
+
 /// Given an element `F`, break it into chunks where each chunk is of `chunk_bit_size` bits. This is
 /// essentially an n-ary representation where n is `chunk_bit_size`. Returns big-endian representation.
 pub fn decompose<F: PrimeField>(message: &F, chunk_bit_size: u8) -> crate::Result<Vec<CHUNK_TYPE>> {
-- 
2.43.0


From 89189e57e6616d8271316be0399907d8ab376c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 11/11] fix: refuse to verify a proof for a ciphertext with a
 wrong number of chunks

---
 src/saver_groth16.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index f8cb1c4..987eb70 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -117,6 +117,12 @@ pub fn calculate_d<E: Pairing>(
     pvk: &PreparedVerifyingKey<E>,
     ciphertext: &Ciphertext<E>,
 ) -> Result<E::G1Affine, SaverError> {
+    if ciphertext.enc_chunks.len() + 1 != pvk.vk.gamma_abc_g1.len() {
+        return Err(SaverError::VectorShorterThanExpected(
+            pvk.vk.gamma_abc_g1.len(),
+            ciphertext.enc_chunks.len() + 1,
+        ));
+    }
     let mut d = ciphertext.X_r.into_group();
     for c in ciphertext.enc_chunks.iter() {
         d.add_assign(c.into_group())
-- 
2.43.0

