From f8cec28ec6a49023e3a8cdec8110f12777038408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 1/6] fix: g1_lincomb and g2_lincomb return None when lengths
 differ

Zipping the two slices silently dropped the surplus of the longer one, so
the documented None was never returned and a wrong sum was.
---
 cryptography/bls12_381/src/lincomb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..42dab31 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,9 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +75,9 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0


From 6dcfa4f12c15a8570337cc78c616434fa123aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 2/6] fix: poly_mul of polynomials without coefficients

The length of the product of two empty vectors underflowed.
---
 cryptography/polynomial/src/poly_coeff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptography/polynomial/src/poly_coeff.rs b/cryptography/polynomial/src/poly_coeff.rs
index e0cf8b5..6fe1af6 100644
--- a/cryptography/polynomial/src/poly_coeff.rs
+++ b/cryptography/polynomial/src/poly_coeff.rs
@@ -52,6 +52,10 @@ pub fn poly_eval(poly: &PolyCoeff, value: &Scalar) -> Scalar {
 /// For two polynomials, `f(x)` and `g(x)`, this method computes
 /// the result of `f(x) * g(x)` and returns the result.
 pub fn poly_mul(a: PolyCoeff, b: PolyCoeff) -> PolyCoeff {
+    // A polynomial without coefficients is zero, and so is any product with it
+    if a.is_empty() || b.is_empty() {
+        return Vec::new();
+    }
     let mut result = vec![Scalar::ZERO; a.len() + b.len() - 1];
     for (i, a_coeff) in a.iter().enumerate() {
         for (j, b_coeff) in b.iter().enumerate() {
-- 
2.43.0


From a9731a3b358ba73ec1d9478a280990add20e5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 3/6] fix: node: reject cell indices that are not unsigned
 64-bit integers

---
 bindings/node/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..57d4b36 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_, _>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_, _>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,14 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  let (signed, value_u64, lossless) = value.get_u64();
+  if signed || !lossless {
+    return Err(Error::from_reason(
+      "value should be an unsigned 64-bit integer",
+    ));
+  }
+  Ok(value_u64)
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 872e58cfb95fbaf02aee388d35269c63e33be815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:05 +0000
Subject: [PATCH 4/6] fix: go: report the error of blob_to_kzg_commitment

---
 bindings/golang/prover.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 71d763d..bd3ca27 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -60,7 +60,11 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 		return nil, errors.New("invalid blob size")
 	}
 	out := make([]byte, 48)
-	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	res := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	if res.status != C.Ok {
+		defer C.eth_kzg_free_error_message(res.error_msg)
+		return nil, errors.New(C.GoString(res.error_msg))
+	}
 	return out, nil
 }
 
-- 
2.43.0


From 9aea37778fda4cfca31737809ee64ac3967af719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:05 +0000
Subject: [PATCH 5/6] fix: go: keep the context alive while a call uses it

---
 bindings/golang/prover.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index bd3ca27..b748334 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -61,6 +61,8 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 	}
 	out := make([]byte, 48)
 	res := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	// The finalizer must not free the context while the call above is using it.
+	runtime.KeepAlive(prover)
 	if res.status != C.Ok {
 		defer C.eth_kzg_free_error_message(res.error_msg)
 		return nil, errors.New(C.GoString(res.error_msg))
-- 
2.43.0


From 4371534e689ca36a84b5689c105e4c210ba7b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 6/6] hook: cell and blob sizes from the environment under cfg
 mc_small

---
 eip7594/src/constants.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/eip7594/src/constants.rs b/eip7594/src/constants.rs
index 88d5708..9859bdf 100644
--- a/eip7594/src/constants.rs
+++ b/eip7594/src/constants.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 // Note: Any mention of field elements in this file and in general in the codebase
 // refers to the scalar field.
 
@@ -14,12 +16,29 @@ pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
 /// Note: This value must be a power of two between 1 and 64. The greatest value is 64 because there
 /// are only 65 G2 points in the trusted setup. Technically, it's still feasible to have a cell with
 /// more points, say 128, but it will require two proofs per cell.
+#[cfg(not(mc_small))]
 pub const FIELD_ELEMENTS_PER_CELL: usize = 64;
+#[cfg(mc_small)]
+pub const FIELD_ELEMENTS_PER_CELL: usize = small_scope(env!("MC_CELL"));
 
 /// The number of field elements needed to represent a blob.
 ///
 /// Note: This is originally specified in the 4844 specs.
+#[cfg(not(mc_small))]
 pub const FIELD_ELEMENTS_PER_BLOB: usize = 4096;
+#[cfg(mc_small)]
+pub const FIELD_ELEMENTS_PER_BLOB: usize = small_scope(env!("MC_BLOB"));
+
+/// Instances with tiny parameters, which are explored exhaustively. Never set in a normal build.
+#[cfg(mc_small)]
+const fn small_scope(digits: &str) -> usize {
+    let (mut n, mut i) = (0, 0);
+    while i < digits.len() {
+        n = 10 * n + (digits.as_bytes()[i] - b'0') as usize;
+        i += 1;
+    }
+    n
+}
 
 /// The number of bytes needed to represent a blob.
 pub const BYTES_PER_BLOB: usize = FIELD_ELEMENTS_PER_BLOB * BYTES_PER_FIELD_ELEMENT;
-- 
2.43.0

