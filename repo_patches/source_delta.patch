From 74d1685181baff9f824c2410ec9a45041da749c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:50 +0000
Subject: [PATCH 01/13] fix: dividing a constant signal computed the reciprocal
 quotient

`constant / x` took the arm that returns `x / constant`. Divide by a constant
divisor directly and go through the division constraint otherwise.
---
 src/circuit/num.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..1530190 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -496,9 +496,6 @@ impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
         match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
             (_, Some(b)) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
-- 
2.43.0


From 5fe38415a963e6c14bcbe0b167424c9825b045b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:50 +0000
Subject: [PATCH 02/13] fix: reject a serialized SizedVec of the wrong length

---
 src/core/sizedvec.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..b1b9732 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{self, Deserialize, Deserializer},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,14 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() != L::USIZE {
+            return Err(de::Error::invalid_length(
+                v.len(),
+                &"SizedVec of declared length",
+            ));
+        }
+        Ok(SizedVec::<T, L>(v, PhantomData))
     }
 }
 
-- 
2.43.0


From 5ce9f0916aaa5712434aeac116c9e3090ed21606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:50 +0000
Subject: [PATCH 03/13] fix: converting the minimal signed integers to Num
 overflowed

---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..4520cfa 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.wrapping_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = (n as i64).abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From 2401efa09f0aeb3c9c3a19a8d5ec26b5dd4f4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:50 +0000
Subject: [PATCH 04/13] fix: use a multiplicative generator for the bn256
 jubjub scalar field

7 is a quadratic residue modulo this prime, so sqrt in the field never worked.
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0


From a7e519b0ae8f6aac6f61f7c0acb9b0c059c98f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:35 +0000
Subject: [PATCH 05/13] fix: refuse bn256 G2 points outside the prime-order
 subgroup

The bls12_381 conversions check the subgroup and so does that curve's decoder;
bn256 G2 also has a cofactor, but neither the data conversion nor the compressed
decoding of proofs and verifying keys checked it.
---
 src/helpers/groth16/mod.rs      |  7 ++++++-
 src/helpers/groth16/prover.rs   | 14 +++++++++++---
 src/helpers/groth16/verifier.rs | 15 +++++++++++++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..a82290c 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
diff --git a/src/helpers/groth16/prover.rs b/src/helpers/groth16/prover.rs
index 64a35b0..16b3f6c 100644
--- a/src/helpers/groth16/prover.rs
+++ b/src/helpers/groth16/prover.rs
@@ -1,12 +1,12 @@
 use std::io::{self, Read, Write};
 
 use bellman::{self, SynthesisError};
-use pairing::{bls12_381, bn256, Engine};
+use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
 use serde::{Deserialize, Serialize};
 
 use crate::{
     core::cs::Circuit,
-    core::field::Field,
+    core::field::{Field, PrimeField},
     core::osrng::OsRng,
     helpers::groth16::Groth16CS,
     helpers::groth16::{G1PointData, G2PointData},
@@ -76,7 +76,15 @@ impl Proof<bn256::Bn256> {
     }
 
     pub fn read<R: Read>(reader: R) -> io::Result<Self> {
-        Ok(Self(bellman::groth16::Proof::read(reader)?))
+        let proof = bellman::groth16::Proof::<bn256::Bn256>::read(reader)?;
+        // decoding of bn256 G2 points does not check the subgroup
+        if !proof.b.mul(bn256::Fr::char()).is_zero() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point is not in subgroup",
+            ));
+        }
+        Ok(Self(proof))
     }
 }
 
diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..782fe5d 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -124,6 +124,11 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                         io::ErrorKind::InvalidData,
                         "point at infinity",
                     ))
+                } else if !e.mul(<E::Fr as PrimeField>::char()).is_zero() {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "point is not in subgroup",
+                    ))
                 } else {
                     Ok(e)
                 }
@@ -139,6 +144,11 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                         io::ErrorKind::InvalidData,
                         "point at infinity",
                     ))
+                } else if !e.mul(<E::Fr as PrimeField>::char()).is_zero() {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "point is not in subgroup",
+                    ))
                 } else {
                     Ok(e)
                 }
@@ -154,6 +164,11 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                         io::ErrorKind::InvalidData,
                         "point at infinity",
                     ))
+                } else if !e.mul(<E::Fr as PrimeField>::char()).is_zero() {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "point is not in subgroup",
+                    ))
                 } else {
                     Ok(e)
                 }
-- 
2.43.0


From c995e7b4c685c322a5a0477ceeca2c70a0cc2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:35 +0000
Subject: [PATCH 06/13] fix: report a truncated or unreadable verifying key
 instead of dropping inputs

Any error while reading the ic points ended the key early without an error.
---
 src/helpers/groth16/verifier.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 782fe5d..447af59 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -176,7 +176,18 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
 
         let mut ic = vec![];
 
-        while reader.read_exact(g1_repr.as_mut()).is_ok() {
+        let mut ic_bytes = vec![];
+        reader.read_to_end(&mut ic_bytes)?;
+        let g1_size = <E::G1Affine as CurveAffine>::Compressed::size();
+        if ic_bytes.len() % g1_size != 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "truncated ic point",
+            ));
+        }
+
+        for chunk in ic_bytes.chunks(g1_size) {
+            g1_repr.as_mut().copy_from_slice(chunk);
             let g1 = g1_repr
                 .into_affine()
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-- 
2.43.0


From e7dafdf061ae82c4d5a029fbe26ce1087cb63109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:35 +0000
Subject: [PATCH 07/13] fix: compare with constants wider than the signal

c_comp_constant ignored the bits of the constant beyond the signal's length.
---
 src/circuit/bitify.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 379314c..769366f 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -58,6 +58,12 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
     assert!(siglen > 0, "should be at least one input signal");
     let cs = signal[0].get_cs();
     let nsteps = (siglen >> 1) + (siglen & 1);
+
+    // the constant has more bits than the signal, so it is always greater
+    if ct.iterbit_le().skip(2 * nsteps).any(|b| b) {
+        return CBool::c_false(cs);
+    }
+
     let sig_zero = if siglen & 1 == 1 {
         vec![CBool::c_false(cs)]
     } else {
-- 
2.43.0


From ba13fe854124bc17a365668196685b95a5797a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:29 +0000
Subject: [PATCH 08/13] fix: published constraint count of eddsaposeidon
 verification

The circuit needs 3866 constraints, as its own test prints.
---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 88b6bc0..eeff44f 100644
--- a/README.md
+++ b/README.md
@@ -50,7 +50,7 @@ pub fn c_poseidon_merkle_proof_root<'a, CS:ConstraintSystem, L:Unsigned>(
 | ecmul_const 254 bits | 513 | 2.02 |
 | ecmul 254 bits | 2296 | 9.04 |
 | poseidon merkle proof 32| 7328 | |
-| poseidon eddsa | 3860 | |
+| poseidon eddsa | 3866 | |
 | rollup 1024 txs, 2^32 set | 35695616 |
 
 At i9-9900K rollup is proved for 628 seconds. 
-- 
2.43.0


From 9c7512b39aeaa4230a2a3db49cbcd1924dbc1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:20 +0000
Subject: [PATCH 09/13] fix: SizedVec get_value and as_const panicked when a
 component has none

Collecting into Option<SizedVec> hands the vector a short iterator, which
fails its length check before the None is reported.
---
 src/core/signal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..d38db97 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        let v: Option<Vec<_>> = self.iter().map(|v| v.get_value()).collect();
+        v.map(|v| v.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +73,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        let v: Option<Vec<_>> = self.iter().map(|v| v.as_const()).collect();
+        v.map(|v| v.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0


From 6cdabf6ab0a32f343ea60a5b910809e7b3db7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:38 +0000
Subject: [PATCH 10/13] fix: decode the point at infinity to its canonical
 representation

---
 src/helpers/groth16/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index a82290c..07ac4c4 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -130,6 +130,9 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             c1: self.1 .0.into_inner(),
         };
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bn256::G2Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
@@ -159,6 +162,9 @@ impl Into<bn256::G1Affine> for G1PointData<bn256::Fq> {
         let x = self.0.into_inner();
         let y = self.1.into_inner();
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bn256::G1Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BN256_B_COEFF),
             "point should be in curve"
@@ -191,6 +197,9 @@ impl Into<bls12_381::G2Affine> for G2PointData<bls12_381::Fq> {
             c1: self.1 .0.into_inner(),
         };
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bls12_381::G2Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BLS12_381_B_COEFF_FQ2),
             "point should be in curve"
@@ -220,6 +229,9 @@ impl Into<bls12_381::G1Affine> for G1PointData<bls12_381::Fq> {
         let x = self.0.into_inner();
         let y = self.1.into_inner();
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bls12_381::G1Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BLS12_381_B_COEFF),
             "point should be in curve"
-- 
2.43.0


From 9c17578e8dd095414f8042c7a24b30360304a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:47 +0000
Subject: [PATCH 11/13] fix: generated Solidity verifier did not compile for
 small G2 coordinates

Both literals of an array literal below 2^248 give a uint248[2] or smaller,
which does not convert to the uint256[2] of G2Point.
---
 src/helpers/groth16/ethereum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/groth16/ethereum.rs b/src/helpers/groth16/ethereum.rs
index 07f2ce3..d6b28f8 100644
--- a/src/helpers/groth16/ethereum.rs
+++ b/src/helpers/groth16/ethereum.rs
@@ -201,7 +201,7 @@ contract Verifier {
 
     fn stringify_g2(p: &G2PointData<Fq>) -> String {
         format!(
-            "[{}, {}], [{}, {}]",
+            "[uint256({}), {}], [uint256({}), {}]",
             p.0 .0.to_string(),
             p.0 .1.to_string(),
             p.1 .0.to_string(),
-- 
2.43.0


From 246a1b489693995514c89a5b6d6b51bc8a1a5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:59 +0000
Subject: [PATCH 12/13] fix: compare signals with more bits than the field
 representation [C13]

c_comp_constant ran out of constant bits and panicked for vectors longer than
the constant's representation.
---
 src/circuit/bitify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 769366f..d0bfa13 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -77,8 +77,8 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
     let mut acc = CNum::zero(cs);
 
     for _ in 0..nsteps {
-        let ct_l = ct_bits.next().unwrap();
-        let ct_u = ct_bits.next().unwrap();
+        let ct_l = ct_bits.next().unwrap_or(false);
+        let ct_u = ct_bits.next().unwrap_or(false);
 
         let sig_l = sig_bits.next().unwrap();
         let sig_u = sig_bits.next().unwrap();
-- 
2.43.0


From 27ad975a3adad72c225feae4b950011dde61dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:34 +0000
Subject: [PATCH 13/13] fix: write the whole Solidity verifier or fail [C23]

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 48fde1d..3bf96c1 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -374,7 +374,7 @@ macro_rules! groth16_ethereum_bindings {
                 let sol_str = generate_sol_data(&vk);
                 File::create(o.solidity)
                     .unwrap()
-                    .write(&sol_str.into_bytes())
+                    .write_all(&sol_str.into_bytes())
                     .unwrap();
                 println!("solidity verifier generated")
             }
-- 
2.43.0

