From 4253b9ff8020cdf5154fdbb8c38663be79489c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 01/16] fix: FrRepr::num_bits counts the bits of the single
 64-bit limb

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..cf653d8 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (1usize as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From 5664f71d1fa30521d2b13a671faf737d2070536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 02/16] fix: F5G order predicates are one lexicographic order,
 and lt terminates

---
 starky/src/f5g.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..6339ac4 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
-- 
2.43.0


From a9c4e0ea7f59a744b0e0da96a79b80b833265621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 03/16] fix: negating a full F5G element

---
 starky/src/f5g.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 6339ac4..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -484,9 +484,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From ad040e28a1ff3a9dbb8744755fd39c4a25ce9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 04/16] fix: Merkle verification hashes the opened row into the
 path

---
 starky/src/merklehash_bls12381.rs | 7 ++++---
 starky/src/merklehash_bn128.rs    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..6d4ca62 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,12 +116,13 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
@@ -134,8 +135,8 @@ impl MerkleTreeBLS12381 {
         idx: usize,
         vals: &[FGL],
     ) -> Result<ElementDigest<4, Fr>> {
-        let h = self.h.hash_element_matrix(&[vals.to_vec()])?;
-        self.merkle_calculate_root_from_proof(mp, idx, &ElementDigest::<4, Fr>::from_scalar(&h), 0)
+        let h = self.h.hash_element_array(vals)?;
+        self.merkle_calculate_root_from_proof(mp, idx, &h, 0)
     }
 }
 
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..d647094 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,12 +115,13 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
@@ -133,8 +134,8 @@ impl MerkleTreeBN128 {
         idx: usize,
         vals: &[FGL],
     ) -> Result<ElementDigest<4, Fr>> {
-        let h = self.h.hash_element_matrix(&[vals.to_vec()])?;
-        self.merkle_calculate_root_from_proof(mp, idx, &ElementDigest::<4, Fr>::from_scalar(&h), 0)
+        let h = self.h.hash_element_array(vals)?;
+        self.merkle_calculate_root_from_proof(mp, idx, &h, 0)
     }
 }
 
-- 
2.43.0


From e0a28c6c00771b42014179b6f2af537738c3f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 05/16] fix: absorbing into a transcript discards all buffered
 challenges

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From 2ab702fbf695f3268106325fa0bcdf38a35a93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 06/16] fix: at least one worker on a single-CPU machine

---
 starky/src/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..fe5f5fe 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,5 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    std::cmp::max(1, num_cpus::get() - 1)
 }
-- 
2.43.0


From 30e70d9ac2b2292040009e81bcd17cef34536578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 07/16] fix: the root of a tree of one row is its leaf digest

---
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 6d4ca62..c31512d 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBLS12381 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // the leaf of a tree of one row is its root
+    if n_ <= 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index d647094..385019f 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -24,6 +24,10 @@ pub struct MerkleTreeBN128 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // the leaf of a tree of one row is its root
+    if n_ <= 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
-- 
2.43.0


From 942b5886e5564ea8aa019d88af903e8dc52e4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 08/16] fix: BR fills its cache up to the index asked for

---
 starky/src/fft_p.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 35a1a7a..8eab7dd 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -33,7 +33,7 @@ pub fn BR(x: usize, domain_pow: usize) -> usize {
     // check if need append more to cache
     let cache_len = cache.len();
     let n = 1 << domain_pow;
-    if cache_len <= n || cache_len < x {
+    if cache_len <= n || cache_len <= x {
         let end = if n >= x { n } else { x };
         // todo parallel
         for i in cache_len..=end {
-- 
2.43.0


From 394305e1671d2eedb6a0844f098b7b3425dd88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 09/16] fix: parallel transforms of a single point

---
 starky/src/fft_p.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 8eab7dd..8f49787 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -224,7 +224,7 @@ pub fn _fft<F: FieldExtension>(
     (bin, bout) = (bout, bin);
 
     rayon::scope(|_s| {
-        for i in (0..nbits).step_by(blockbits) {
+        for i in (0..nbits).step_by(blockbits.max(1)) {
             let s_inc = min(blockbits, nbits - i);
             bin.par_chunks_mut(blocksize * n_pols).enumerate().for_each(|(j, bb)| {
                 fft_block(bb, j * blocksize, n_pols, nbits, i + s_inc, blockbits, s_inc);
@@ -319,7 +319,7 @@ pub fn interpolate<F: FieldExtension>(
     interpolate_bit_reverse(bout, buffsrc, n_pols, nbits);
     (bin, bout) = (bout, bin);
 
-    for i in (0..nbits).step_by(blockbits) {
+    for i in (0..nbits).step_by(blockbits.max(1)) {
         log::trace!("Layer ifft {}", i);
         let s_inc = min(blockbits, nbits - i);
         bin.par_chunks_mut(blocksize * n_pols).enumerate().for_each(|(j, bb)| {
@@ -339,7 +339,7 @@ pub fn interpolate<F: FieldExtension>(
     bit_reverse(bout, bin, n_pols, nbitsext);
     (bin, bout) = (bout, bin);
 
-    for i in (0..nbitsext).step_by(blockbitsext) {
+    for i in (0..nbitsext).step_by(blockbitsext.max(1)) {
         log::trace!("Layer fft {}", i);
         let s_inc = min(blockbitsext, nbitsext - i);
         bin.par_chunks_mut(blocksizeext * n_pols).enumerate().for_each(|(j, bb)| {
-- 
2.43.0


From 51986d656b241d6121b34c7edf33cefec0875a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 10/16] fix: interpolate_prepare gives every thread at least
 one row

---
 starky/src/fft_p.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 8f49787..38cc6f1 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -154,6 +154,7 @@ pub fn interpolate_prepare<F: FieldExtension>(buff: &mut Vec<F>, n_pols: usize,
     if n_per_thread_f < min_corrected {
         n_per_thread_f = min_corrected
     };
+    n_per_thread_f = n_per_thread_f.max(1);
 
     /*
     for i in (0..n).step_by(n_per_thread_f) {
-- 
2.43.0


From 0400184d073cc8ac5ae6147b1719b3c4aae62dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 11/16] fix: witness files with bad, missing or surplus
 elements are refused

---
 algebraic-gpu/src/reader.rs                     | 13 +++++++------
 algebraic-gpu/src/witness/witness_calculator.rs |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..402d832 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -98,25 +98,26 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("invalid field element in witness");
         }
         // repr.read_le(&mut reader)?;
         // result.push(E::Fr::from_repr(repr)?);
     }
+    if reader.read(&mut [0u8; 1])? != 0 {
+        bail!("witness section is longer than the witness");
+    }
     Ok(result)
 }
 
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..3dec413 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
-- 
2.43.0


From 57e944417aa32a6f2524f93f26c16d3cce0927df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 12/16] fix: R1CS and witness files over another prime than the
 field's are refused

---
 algebraic-gpu/src/r1cs_file.rs | 11 ++++++++++-
 algebraic-gpu/src/reader.rs    |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..3314edf 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -4,6 +4,8 @@
 use crate::circom_circuit::{Constraint, CustomGates, CustomGatesUses};
 use byteorder::{LittleEndian, ReadBytesExt};
 use ff::PrimeField;
+use num_bigint::BigUint;
+use num_traits::Num;
 use std::{
     collections::BTreeMap,
     io::{Error, ErrorKind, Read, Result, Seek, SeekFrom},
@@ -46,6 +48,13 @@ fn read_field<R: Read, E: PrimeField>(mut reader: R) -> Result<E> {
     }
 }
 
+/// The modulus of the field, as the files hold it
+pub(crate) fn modulus_le<E: PrimeField>() -> Vec<u8> {
+    BigUint::from_str_radix(E::MODULUS.trim_start_matches("0x"), 16)
+        .expect("modulus in hexadecimal")
+        .to_bytes_le()
+}
+
 const HEADER_TYPE: u32 = 1;
 const CONSTRAINT_TYPE: u32 = 2;
 const WIRE2LABEL_TYPE: u32 = 3;
@@ -230,7 +239,7 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
             "This parser only supports 32-bytes or 8-bytes fields",
         ));
     }
-    if header.field_size != E::NUM_BITS.div_ceil(8) {
+    if header.field_size != E::NUM_BITS.div_ceil(8) || header.prime_size != modulus_le::<E>() {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
     if !(header.prime_size
diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 402d832..dcced02 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -88,7 +88,7 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
+    if prime != crate::r1cs_file::modulus_le::<E>() {
         bail!("invalid curve prime".to_string());
     }
     let witness_len = reader.read_u32::<LittleEndian>()?;
-- 
2.43.0


From 1f4196e7237a8cb763f83bf1019723ffdc75fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 13/16] fix: malformed R1CS files are refused instead of
 panicking, hanging or being misread

---
 algebraic-gpu/src/r1cs_file.rs | 69 ++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 3314edf..24d2c23 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -63,11 +63,11 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid header section size"));
     }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -87,7 +87,7 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<(usize, E)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -105,7 +105,7 @@ fn read_constraints<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -124,25 +124,25 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(ErrorKind::InvalidData, "Wire 0 should always be mapped to 0"));
     }
     Ok(vec)
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -154,7 +154,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -177,25 +177,32 @@ fn read_custom_gates_uses_list<R: Read>(
         b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
     }
 
-    let n_custom_gate_uses = b_r1cs32[0];
-    let mut b_r1cs_pos = 1;
+    let mut words = b_r1cs32.into_iter();
+    let mut next = || words.next().ok_or_else(|| Error::from(ErrorKind::UnexpectedEof));
+    let n_custom_gate_uses = next()?;
     for i in 0..n_custom_gate_uses {
-        let mut c = CustomGatesUses { id: b_r1cs32[b_r1cs_pos] as u64, ..Default::default() };
-        b_r1cs_pos += 1;
-        let num_signals = b_r1cs32[b_r1cs_pos];
-        b_r1cs_pos += 1;
+        let mut c = CustomGatesUses { id: next()? as u64, ..Default::default() };
+        let num_signals = next()?;
         for j in 0..num_signals {
-            let LSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
-            let MSB = b_r1cs32[b_r1cs_pos] as u64;
-            b_r1cs_pos += 1;
+            let LSB = next()? as u64;
+            let MSB = next()? as u64;
             c.signals.push(MSB * 0x100000000u64 + LSB);
         }
         custom_gates_uses.push(c);
     }
+    if size % 4 != 0 || next().is_ok() {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid section size"));
+    }
     Ok(custom_gates_uses)
 }
 
+fn check_section_end<R: Seek>(reader: &mut R, end: u64) -> Result<()> {
+    if reader.stream_position()? != end {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid section size"));
+    }
+    Ok(())
+}
+
 pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSFile<E>> {
     let mut magic = [0u8; 4];
     reader.read_exact(&mut magic)?;
@@ -217,13 +224,24 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
 
     // get file offset of each section, we do not support custom gate yet, so ignore the
     // last two sections.
+    let start = reader.stream_position()?;
+    let file_size = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(start))?;
     for i in 0..(num_sections) {
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.stream_position()?;
+        if section_size > file_size.saturating_sub(offset) {
+            return Err(Error::new(ErrorKind::UnexpectedEof, "Section longer than the file"));
+        }
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
-        reader.seek(SeekFrom::Current(section_size as i64))?;
+        reader.seek(SeekFrom::Start(offset + section_size))?;
+    }
+    for section_type in [HEADER_TYPE, CONSTRAINT_TYPE, WIRE2LABEL_TYPE] {
+        if !section_offsets.contains_key(&section_type) {
+            return Err(Error::new(ErrorKind::InvalidData, "Missing section"));
+        }
     }
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&HEADER_TYPE).unwrap()))?;
@@ -250,12 +268,19 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(Error::new(ErrorKind::InvalidData, "More public wires than wires"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
         *section_sizes.get(&CONSTRAINT_TYPE).unwrap(),
         &header,
     )?;
+    check_section_end(
+        &mut reader,
+        section_offsets[&CONSTRAINT_TYPE] + section_sizes[&CONSTRAINT_TYPE],
+    )?;
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&WIRE2LABEL_TYPE).unwrap()))?;
     let wire_mapping =
@@ -268,6 +293,10 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
             *section_sizes.get(&CUSTOM_GATES_LIST).unwrap(),
             &header,
         )?;
+        check_section_end(
+            &mut reader,
+            section_offsets[&CUSTOM_GATES_LIST] + section_sizes[&CUSTOM_GATES_LIST],
+        )?;
     }
 
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
-- 
2.43.0


From 9cb5e8fac40cc9847be1769b91b43edbc47a0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 14/16] fix: parse_pil_number reduces numerals of any size,
 negative and hexadecimal ones included, modulo the Goldilocks prime

---
 starky/src/types.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/starky/src/types.rs b/starky/src/types.rs
index 6e5a405..f219fea 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -7,6 +7,8 @@ use std::fs::File;
 use std::io::Read;
 
 use anyhow::{anyhow, Result};
+use num_bigint::BigUint;
+use num_traits::{Num, ToPrimitive};
 
 #[derive(Serialize, Deserialize, Debug, Clone, Eq, PartialEq)]
 pub struct Public {
@@ -220,16 +222,22 @@ where
 #[inline(always)]
 pub fn parse_pil_number(raw_val: &str) -> u64 {
     //let raw_val = r.value.as_ref().unwrap();
-    let mut n_val: i128 = match raw_val.starts_with("0x") {
-        true => i128::from_str_radix(&raw_val[2..], 16).unwrap(),
-        _ => raw_val.parse::<i128>().unwrap(),
+    let (negative, magnitude) = match raw_val.strip_prefix('-') {
+        Some(rest) => (true, rest),
+        None => (false, raw_val),
+    };
+    let n_val = match magnitude.strip_prefix("0x") {
+        Some(digits) => BigUint::from_str_radix(digits, 16).unwrap(),
+        None => BigUint::from_str_radix(magnitude, 10).unwrap(),
     };
     // FIXME: Goldilocks modular, try to fetch it from FieldExtension
-    if n_val < 0 {
-        n_val += 18446744069414584321;
+    let modulus = 18446744069414584321u64;
+    let n_val = (n_val % modulus).to_u64().unwrap();
+    if negative && n_val != 0 {
+        modulus - n_val
+    } else {
+        n_val
     }
-    n_val %= 18446744069414584321;
-    n_val as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From 76eefcb19e3fb1643f941bc2a553978981d4fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 15/16] fix: a G1 or G2 point of a JSON file that is off the
 curve or malformed is an error, not a panic

---
 recursion-gnark/ffi/src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..cb8e0c3 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -486,8 +486,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
-- 
2.43.0


From 02e822bcab176ae6adfd2e64c8214ec5fc46e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 16/16] fix: the point at infinity of G2 can be written to JSON

---
 recursion-gnark/ffi/src/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index cb8e0c3..2638bd5 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -219,11 +219,17 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
-                x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
-                x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
-                x_seq.serialize_element(&vec!["1", "0"])?;
+                if let Some((x, y)) = p.xy() {
+                    x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
+                    x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                } else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                }
                 x_seq.end()
             }
             fn serialize_gt<S: Serializer>(
-- 
2.43.0

