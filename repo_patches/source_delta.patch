From 6a617ba46766c0862a205876b6b950ad703803f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 01/26] hook: re-export crate-private trait names for the model
 checker (cfg iris_mc)

---
 iris-mpc/src/lib.rs      | 3 +++
 iris-mpc/src/mc_hooks.rs | 5 +++++
 2 files changed, 8 insertions(+)
 create mode 100644 iris-mpc/src/mc_hooks.rs

diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 752fb46..b3cd4d8 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -4,6 +4,9 @@ pub(crate) mod commitment;
 pub(crate) mod dzkp;
 pub(crate) mod error;
 pub(crate) mod iris;
+#[cfg(iris_mc)]
+#[doc(hidden)]
+pub mod mc_hooks;
 pub mod prelude;
 pub(crate) mod spdzwise;
 pub(crate) mod swift3;
diff --git a/iris-mpc/src/mc_hooks.rs b/iris-mpc/src/mc_hooks.rs
new file mode 100644
index 0000000..9269f81
--- /dev/null
+++ b/iris-mpc/src/mc_hooks.rs
@@ -0,0 +1,5 @@
+//! Names the model checker needs from outside this crate.  Compiled only with `--cfg iris_mc`.
+pub use crate::traits::binary_trait::BinaryMpcTrait;
+pub use crate::traits::share_trait::ShareTrait;
+pub use crate::types::int_ring::IntRing2k;
+pub use crate::types::ring_element::RingElement;
-- 
2.43.0


From 95445e2e177bb51cdd2b64e007a2eb143d6fdcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 02/26] fix: check the share received when SpdzWise opens
 values

open and open_many used the unverified semi-honest opening after the MAC
check, so a single party could change the opened value by altering its last
message. The received share is now compared with the other party's copy, as
open_bit and open_bit_many already do.
---
 iris-mpc/src/spdzwise/protocol.rs | 34 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..9730c87 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -870,13 +870,14 @@ where
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
+        // The missing share is checked against the copy of the other party
+        let (a, b) = share.get_value().get_ab();
+        let c = self
+            .jmp_send_receive::<T::VerificationShare>(b.to_owned(), a.to_owned())
+            .await?;
+        self.jmp_verify().await?;
 
+        let result = T::VerificationShare::from_sharetype(a + b + c);
         Ok(T::from_verificationshare(result))
     }
 
@@ -884,16 +885,21 @@ where
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        // The missing shares are checked against the copies of the other party
+        let (shares_a, shares_b): (Vec<_>, Vec<_>) =
+            shares.get_values().into_iter().map(|s| s.get_ab()).unzip();
+        let shares_c = self
+            .jmp_send_receive_many::<T::VerificationShare>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
 
-        let result = result
+        let result = shares_a
             .into_iter()
-            .map(|r| T::from_verificationshare(r))
+            .zip(shares_b)
+            .zip(shares_c)
+            .map(|((a, b), c)| {
+                T::from_verificationshare(T::VerificationShare::from_sharetype(a + b + c))
+            })
             .collect();
 
         Ok(result)
-- 
2.43.0


From 91d839cb468a5ffd9085dde600bc82336ebf65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 03/26] fix: report a malformed message of bits as an error
 instead of panicking

ring_iter_from_bytes only checked the length, so a byte that encodes no bit
made the lazily decoding iterator panic. Decode before returning the iterator.
---
 iris-mpc/src/aby3/utils.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..4dbc577 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -241,35 +241,25 @@ pub(crate) fn ring_iter_from_bytes<T>(bytes: BytesMut, n: usize) -> Result<RingB
 where
     T: RingImpl,
 {
-    if bytes.remaining() != n * ((T::K + 7) / 8) {
-        return Err(Error::ConversionError);
-    }
-
+    // Decode everything here, since not every byte string encodes a value (e.g., for bits)
     Ok(RingBytesIter {
-        bytes,
-        _marker: std::marker::PhantomData,
+        values: ring_vec_from_bytes(bytes, n)?.into_iter(),
     })
 }
 
 pub(crate) struct RingBytesIter<T> {
-    bytes: BytesMut,
-    _marker: std::marker::PhantomData<T>,
+    values: std::vec::IntoIter<T>,
 }
 
 impl<T: RingImpl> Iterator for RingBytesIter<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.bytes.remaining() == 0 {
-            None
-        } else {
-            Some(T::take_from_bytes_mut(&mut self.bytes).expect("checked while constructing"))
-        }
+        self.values.next()
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.bytes.remaining() / ((T::K + 7) / 8);
-        (len, Some(len))
+        self.values.size_hint()
     }
 }
 
-- 
2.43.0


From 59f0d3a1e0c2f1eecbe3598438f5978e15e4cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 04/26] fix: return a failed verification of a query as an
 error

iris_in_db unwrapped the result of verify, so a detected deviation (or a
closed connection during verification) made the honest party panic.
---
 iris-mpc/src/iris/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index a62b616..07e100e 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -279,7 +279,7 @@ where
 
         let res = self.mpc.reduce_binary_or(bool_shares, chunk_size).await?;
 
-        self.mpc.verify().await.unwrap();
+        self.mpc.verify().await?;
         self.mpc.open_bit(res).await
     }
 }
-- 
2.43.0


From 18bc798e8187aa37d4234d47c3065ccdc9e3e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 05/26] fix: request enough AND triples for every chunk size

Each chunk of a query is packed to 128 bit registers on its own, and the OR
tree works on such registers, too. Counting single gates requested too few
triples, so a query with small chunks over a few hundred entries failed with
NotEnoughTriplesError.
---
 iris-mpc/src/iris/protocol.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 07e100e..83715ac 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -241,14 +241,16 @@ where
         self.compare_threshold_many(hwds, mask_lens).await
     }
 
-    pub(crate) fn msb_and_gates(&self, mut amount: usize, chunk_size: usize) -> usize {
+    pub(crate) fn msb_and_gates(&self, amount: usize, chunk_size: usize) -> usize {
         // packed kogge stone, i.e. full a2b: K (2 + 2 * (log_2(K)))
         // let logk = ceil_log2(T::Share::K);
         // amount * T::Share::K * (2 + 2 * logk)
 
         // ripple carry adder: 2 * K - 2
-        amount = (amount + chunk_size - 1) / chunk_size;
-        amount * chunk_size * (T::Share::K * 2 - 3)
+        // each chunk is packed to registers of 128 bits on its own
+        let registers = (amount / chunk_size) * ((chunk_size + 127) / 128)
+            + (amount % chunk_size + 127) / 128;
+        registers * 128 * (T::Share::K * 2 - 3)
     }
 
     pub async fn iris_in_db(
@@ -265,9 +267,9 @@ where
         }
 
         // Get enough and triples. So far only relevant for SpdzWise
-        // amount - 1 for or_reduce, but padded for chunk size + msb_extract
-        let num_and_triples = self.msb_and_gates(amount, chunk_size)
-            + ((amount + chunk_size - 2) / chunk_size) * chunk_size;
+        // amount - 1 for or_reduce, but padded to registers of 128 bits + msb_extract
+        let num_and_triples =
+            self.msb_and_gates(amount, chunk_size) + ((amount + 127) / 128) * 128;
         self.mpc.precompute_and_triples(num_and_triples).await?;
 
         let mut bool_shares = Bshare::VecShare::with_capacity(amount);
-- 
2.43.0


From ba67ea16e13c7c9420c00a061e2cea3b983f8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 06/26] fix: reject batches of dot products of unequal lengths
 in Swift3

---
 iris-mpc/src/swift3/protocol.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..d062ebf 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2248,6 +2248,10 @@ where
             return Err(Error::InvalidSizeError);
         }
 
+        if a.iter().zip(b.iter()).any(|(a_, b_)| a_.len() != b_.len()) {
+            return Err(Error::InvalidSizeError);
+        }
+
         let mut shares_d = Vec::with_capacity(len);
         let mut shares_e = Vec::with_capacity(len);
 
-- 
2.43.0


From 8649b54f458419545fbcba87f29fa67691983cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 07/26] fix: return an error for an input by an unknown party
 in Swift3

---
 iris-mpc/src/swift3/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index d062ebf..5d5731c 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2019,7 +2019,7 @@ where
                     unreachable!()
                 }
             }
-            _ => unreachable!(),
+            _ => return Err(Error::IdError(id)),
         };
 
         Ok(share)
-- 
2.43.0


From defead95ab0c74178bbef08979a3f45df366818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 08/26] fix: keep enough AND triples for a verification in
 SpdzWise

---
 iris-mpc/src/spdzwise/protocol.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 9730c87..120e661 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -752,6 +752,7 @@ where
     async fn precompute_and_triples(&mut self, amount: usize) -> Result<(), Error> {
         let ands = self.prec_triples.len();
         let amount = (amount + 127) / 128; // We allow precomputing as multiples of 128 bit
+        let amount = std::cmp::max(amount, 1usize << (20 - 7)); // The verification consumes at least 2^(20) triples
         if ands <= amount {
             // We have to precompute AND gates
             let prec_triples = self.generate_triples::<ChaCha12Rng>(amount - ands).await?;
-- 
2.43.0


From c506854397679f61c972e968f3eaf8b0e4e1cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 09/26] hook: reach wire encodings, commitments, proof field
 and polynomials (cfg iris_mc)

---
 iris-mpc/src/mc_hooks.rs | 232 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 232 insertions(+)

diff --git a/iris-mpc/src/mc_hooks.rs b/iris-mpc/src/mc_hooks.rs
index 9269f81..83938c1 100644
--- a/iris-mpc/src/mc_hooks.rs
+++ b/iris-mpc/src/mc_hooks.rs
@@ -3,3 +3,235 @@ pub use crate::traits::binary_trait::BinaryMpcTrait;
 pub use crate::traits::share_trait::ShareTrait;
 pub use crate::types::int_ring::IntRing2k;
 pub use crate::types::ring_element::RingElement;
+
+/// The helpers that turn values into messages and back.
+pub mod wire {
+    use crate::aby3::utils;
+    use crate::prelude::{Error, RingImpl};
+    use bytes::{Bytes, BytesMut};
+
+    pub fn slice_to_bytes<T: RingImpl>(v: &[T]) -> Bytes {
+        utils::ring_slice_to_bytes(v)
+    }
+    pub fn iter_to_bytes<T: RingImpl>(v: &[T]) -> Bytes {
+        utils::ring_iter_to_bytes(v.iter())
+    }
+    pub fn vec_from_bytes<T: RingImpl>(b: BytesMut, n: usize) -> Result<Vec<T>, Error> {
+        utils::ring_vec_from_bytes(b, n)
+    }
+    /// The values of the iterator, and the length it announced.
+    pub fn iter_from_bytes<T: RingImpl>(b: BytesMut, n: usize) -> Result<(usize, Vec<T>), Error> {
+        let it = utils::ring_iter_from_bytes(b, n)?;
+        Ok((it.size_hint().0, it.collect()))
+    }
+    pub fn seed_from_bytes(b: BytesMut) -> Result<[u8; 32], Error> {
+        utils::bytes_to_seed(b)
+    }
+    pub fn ceil_log2(x: usize) -> usize {
+        utils::ceil_log2(x)
+    }
+    pub fn bits_of<T: RingImpl>(x: usize) -> Vec<T> {
+        utils::to_bits(x)
+    }
+}
+
+/// Commitments: (commitment, randomness) of values, and the check of an opening.
+pub mod commit {
+    use crate::commitment::{CommitOpening, Commitment};
+    use crate::prelude::RingImpl;
+    use rand::Rng;
+
+    pub fn commit<R: RingImpl, G: Rng>(values: Vec<R>, rng: &mut G) -> (Vec<u8>, [u8; 32]) {
+        let c = Commitment::commit(values, rng);
+        (c.comm, c.rand)
+    }
+    pub fn commit_with<R: RingImpl>(values: Vec<R>, rand: [u8; 32]) -> Vec<u8> {
+        Commitment::commit_with_rand(values, rand).comm
+    }
+    /// Commits, opens, and checks the opening against the commitment made.
+    pub fn open_own<R: RingImpl, G: Rng>(values: Vec<R>, rng: &mut G) -> (Vec<R>, bool) {
+        let c = Commitment::commit(values, rng);
+        let comm = c.comm.clone();
+        let o = c.open();
+        (o.values.clone(), o.verify(comm))
+    }
+    pub fn verify<R: RingImpl>(values: Vec<R>, rand: [u8; 32], comm: Vec<u8>) -> bool {
+        CommitOpening { values, rand }.verify(comm)
+    }
+}
+
+/// The field of the proofs about bits.
+pub mod gf {
+    use crate::dzkp::gf2p64::GF2p64;
+    use crate::dzkp::polynomial::Poly;
+    use num_traits::{One, Zero};
+
+    fn g(x: u64) -> GF2p64 {
+        GF2p64::new(x)
+    }
+    fn gs(v: &[u64]) -> Vec<GF2p64> {
+        v.iter().map(|&x| g(x)).collect()
+    }
+    fn us(v: Vec<GF2p64>) -> Vec<u64> {
+        v.into_iter().map(|x| x.get()).collect()
+    }
+    /// The same operation in each of its forms.
+    pub fn add(a: u64, b: u64) -> Vec<u64> {
+        let (mut c, mut d) = (g(a), g(a));
+        c += g(b);
+        d += &g(b);
+        us(vec![g(a) + g(b), g(a) + &g(b), c, d])
+    }
+    pub fn sub(a: u64, b: u64) -> Vec<u64> {
+        let (mut c, mut d) = (g(a), g(a));
+        c -= g(b);
+        d -= &g(b);
+        us(vec![g(a) - g(b), g(a) - &g(b), c, d])
+    }
+    pub fn mul(a: u64, b: u64) -> Vec<u64> {
+        let (mut c, mut d) = (g(a), g(a));
+        c *= g(b);
+        d *= &g(b);
+        us(vec![g(a) * g(b), g(a) * &g(b), c, d])
+    }
+    pub fn neg(a: u64) -> u64 {
+        (-g(a)).get()
+    }
+    pub fn inverse(a: u64) -> u64 {
+        g(a).inverse().get()
+    }
+    pub fn lift(b: bool) -> u64 {
+        GF2p64::lift(b).get()
+    }
+    pub fn is_zero(a: u64) -> bool {
+        g(a).is_zero()
+    }
+    pub fn is_one(a: u64) -> bool {
+        g(a).is_one()
+    }
+    pub fn zero_one_default() -> [u64; 3] {
+        [GF2p64::zero().get(), GF2p64::one().get(), GF2p64::default().get()]
+    }
+    pub fn serde(a: u64) -> (Vec<u8>, u64) {
+        let b = bincode::serialize(&g(a)).unwrap();
+        let r: GF2p64 = bincode::deserialize(&b).unwrap();
+        (b, r.get())
+    }
+    pub fn modulus() -> Vec<bool> {
+        GF2p64::MODULUS.to_vec()
+    }
+    pub fn evaluate(p: &[u64], x: u64) -> u64 {
+        Poly::from_vec(gs(p)).evaluate(&g(x)).get()
+    }
+    pub fn poly_mul(a: &[u64], b: &[u64]) -> Vec<u64> {
+        us((Poly::from_vec(gs(a)) * &Poly::from_vec(gs(b))).coeffs)
+    }
+    pub fn lagrange(xs: &[u64]) -> Vec<Vec<u64>> {
+        Poly::<GF2p64>::lagrange_polys(&gs(xs)).into_iter().map(|p| us(p.coeffs)).collect()
+    }
+    pub fn interpolate(xs: &[u64], ys: &[u64]) -> Vec<u64> {
+        us(Poly::interpolate(&gs(ys), &Poly::<GF2p64>::lagrange_polys(&gs(xs))).coeffs)
+    }
+}
+
+/// Polynomials over the integer rings, by their coefficients, lowest first.
+pub mod poly {
+    use crate::dzkp::irreducible_polys::IrreduciblePolys;
+    use crate::dzkp::polynomial::Poly;
+    use crate::prelude::{Error, RingImpl};
+    use num_traits::{One, Zero};
+
+    fn p<R: RingImpl>(v: &[R]) -> Poly<R> {
+        Poly::from_vec(v.to_vec())
+    }
+    fn pp<R: RingImpl>(v: &[Vec<R>]) -> Vec<Poly<R>> {
+        v.iter().map(|x| p(x)).collect()
+    }
+    fn cs<R: RingImpl>(v: Vec<Poly<R>>) -> Vec<Vec<R>> {
+        v.into_iter().map(|x| x.coeffs).collect()
+    }
+    pub fn add<R: RingImpl>(a: &[R], b: &[R]) -> Vec<Vec<R>> {
+        let (mut c, mut d) = (p(a), p(a));
+        c += p(b);
+        d += &p(b);
+        cs(vec![p(a) + p(b), p(a) + &p(b), c, d])
+    }
+    pub fn sub<R: RingImpl>(a: &[R], b: &[R]) -> Vec<Vec<R>> {
+        let (mut c, mut d) = (p(a), p(a));
+        c -= p(b);
+        d -= &p(b);
+        cs(vec![p(a) - p(b), p(a) - &p(b), c, d])
+    }
+    pub fn mul<R: RingImpl>(a: &[R], b: &[R]) -> Vec<Vec<R>> {
+        let (mut c, mut d) = (p(a), p(a));
+        c *= p(b);
+        d *= &p(b);
+        cs(vec![p(a) * p(b), p(a) * &p(b), c, d])
+    }
+    pub fn add_const<R: RingImpl>(a: &[R], b: &R) -> Vec<Vec<R>> {
+        let (mut c, mut d) = (p(a), p(a));
+        c += b.clone();
+        d += b;
+        cs(vec![p(a) + b.clone(), p(a) + b, c, d])
+    }
+    pub fn sub_const<R: RingImpl>(a: &[R], b: &R) -> Vec<Vec<R>> {
+        let (mut c, mut d) = (p(a), p(a));
+        c -= b.clone();
+        d -= b;
+        cs(vec![p(a) - b.clone(), p(a) - b, c, d])
+    }
+    pub fn mul_const<R: RingImpl>(a: &[R], b: &R) -> Vec<Vec<R>> {
+        let (mut c, mut d) = (p(a), p(a));
+        c *= b.clone();
+        d *= b;
+        cs(vec![p(a) * b.clone(), p(a) * b, c, d])
+    }
+    pub fn neg<R: RingImpl>(a: &[R]) -> Vec<R> {
+        (-p(a)).coeffs
+    }
+    pub fn rem<R: RingImpl>(a: &[R], b: &[R]) -> Vec<Vec<R>> {
+        cs(vec![p(a) % p(b), p(a) % &p(b)])
+    }
+    pub fn divide<R: RingImpl>(a: &[R], b: &[R]) -> Result<(Vec<R>, Vec<R>), Error> {
+        p(a).long_division(&p(b)).map(|(q, r)| (q.coeffs, r.coeffs))
+    }
+    pub fn evaluate<R: RingImpl>(a: &[R], x: &R) -> R {
+        p(a).evaluate(x)
+    }
+    pub fn degree<R: RingImpl>(a: &[R]) -> usize {
+        p(a).degree()
+    }
+    pub fn leading<R: RingImpl>(a: &[R]) -> R {
+        p(a).leading_coeff().clone()
+    }
+    pub fn shrink<R: RingImpl>(a: &[R]) -> Vec<R> {
+        let mut a = p(a);
+        a.shrink();
+        a.coeffs
+    }
+    pub fn is_zero<R: RingImpl>(a: &[R]) -> bool {
+        p(a).is_zero()
+    }
+    pub fn is_one<R: RingImpl>(a: &[R]) -> bool {
+        p(a).is_one()
+    }
+    pub fn constants<R: RingImpl>(x: R) -> [Vec<R>; 3] {
+        [Poly::<R>::zero().coeffs, Poly::<R>::one().coeffs, Poly::lift(x).coeffs]
+    }
+    pub fn mod_inverse<R: RingImpl>(a: &[R], modulus: &[R]) -> Vec<R> {
+        p(a).mod_inverse(&p(modulus)).coeffs
+    }
+    pub fn modulus<R: RingImpl>(degree: usize) -> Vec<R> {
+        IrreduciblePolys::get::<R>(degree).coeffs
+    }
+    pub fn lagrange<R: RingImpl>(xs: &[Vec<R>], modulus: &[R]) -> Vec<Vec<Vec<R>>> {
+        Poly::<Poly<R>>::lagrange_polys(&pp(xs), &p(modulus)).into_iter().map(|l| cs(l.coeffs)).collect()
+    }
+    /// Interpolates and evaluates at every point, reduced by the modulus.
+    pub fn interpolate<R: RingImpl>(xs: &[Vec<R>], ys: &[Vec<R>], modulus: &[R]) -> Vec<Vec<R>> {
+        let m = p(modulus);
+        let l = Poly::<Poly<R>>::lagrange_polys(&pp(xs), &m);
+        let f = Poly::interpolate(&pp(ys), &l);
+        xs.iter().map(|x| (f.clone().evaluate(&p(x)) % &m).coeffs).collect()
+    }
+}
-- 
2.43.0


From 17ccd3be4c24ede028505fa55dfe9974ba2a8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 10/26] fix: recognise the constant polynomial one

---
 iris-mpc/src/dzkp/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index 21fde28..d8c48b8 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -597,7 +597,7 @@ impl<T: PolyTrait> One for Poly<T> {
     }
 
     fn is_one(&self) -> bool {
-        self.degree() == 1 && self.leading_coeff().is_one()
+        self.degree() == 0 && self.coeffs.first().is_some_and(|c| c.is_one())
     }
 }
 
-- 
2.43.0


From 57c0b646f0618af269b067dcafc08756d0dfb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 11/26] fix: let the dealer alone decide a SpdzWise input

---
 iris-mpc/src/spdzwise/protocol.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 120e661..61b51fa 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -794,14 +794,27 @@ where
     }
 
     async fn input(&mut self, input: Option<T>, id: usize) -> Result<TShare<T>, Error> {
-        let input = input.map(|i| T::to_verificationshare(i));
-
-        let value = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::input(&mut self.aby3, input, id)
-        .await?;
+        if id >= self.aby3.network.get_num_parties() {
+            return Err(Error::IdError(id));
+        }
+        let my_id = self.get_id();
+
+        // The dealer alone decides the sharing: a party that could add to it could shift the input
+        let (rand_a, rand_b) = self.aby3.prf.gen_rands::<UShare<T>>();
+        let value = if my_id == id {
+            let input = match input {
+                Some(x) => T::to_verificationshare(x).to_sharetype(),
+                None => return Err(Error::ValueError("Cannot share None".to_string())),
+            };
+            let rest = input - &rand_a;
+            utils::send_value_prev(&mut self.aby3.network, rest.to_owned()).await?;
+            Aby3Share::new(rand_a, rest)
+        } else if my_id == (id + 1) % 3 {
+            Aby3Share::new(UShare::<T>::zero(), rand_b)
+        } else {
+            let rest = utils::receive_value_next(&mut self.aby3.network).await?;
+            Aby3Share::new(rest, UShare::<T>::zero())
+        };
 
         let r = self.get_r();
         let mac = <_ as MpcTrait<
-- 
2.43.0


From bd64ef0a9231c1629cb024544ddaeae45b143efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 12/26] fix: mask triples with an unsigned word in SpdzWise

---
 iris-mpc/src/spdzwise/triples.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/spdzwise/triples.rs b/iris-mpc/src/spdzwise/triples.rs
index c88b572..7fe32ff 100644
--- a/iris-mpc/src/spdzwise/triples.rs
+++ b/iris-mpc/src/spdzwise/triples.rs
@@ -1,6 +1,6 @@
 use crate::{
     prelude::{Aby3Share, Error, Sharable},
-    types::ring_element::RingImpl,
+    types::ring_element::{RingElement, RingImpl},
 };
 
 #[derive(Clone, Debug)]
@@ -118,9 +118,9 @@ impl Triples {
 
         a_.a <<= open as u32;
         a_.b <<= open as u32;
-        let mask = (1 << open) - 1;
-        a_.a |= aa.to_owned() & mask;
-        a_.b |= ab.to_owned() & mask;
+        let mask = RingElement((1u128 << open) - 1);
+        a_.a |= aa.to_owned() & &mask;
+        a_.b |= ab.to_owned() & &mask;
 
         aa >>= open as u32;
         ab >>= open as u32;
-- 
2.43.0


From bee2e80e9756e76bc2454097ae27bdb527de91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 13/26] fix: read a peer's identity to the end of its stream
 when connecting

---
 mpc-net/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 8f6ead8..5f3c94f 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -127,6 +127,8 @@ impl MpcNetworkHandler {
                     );
                     let mut uni = conn.accept_uni().await?;
                     let other_party_id = uni.read_u32().await?;
+                    // dropping the stream before its end would make the peer's finish fail
+                    uni.read_to_end(0).await?;
                     assert!(connections
                         .insert(
                             usize::try_from(other_party_id).expect("u32 fits into usize"),
-- 
2.43.0


From fe8aa0557a8176addcf3aa9c5db9fc229d3c98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 14/26] fix: deliver queued messages before the network shuts
 down

---
 iris-mpc/src/aby3/network.rs | 11 ++++++++---
 mpc-net/src/channel.rs       | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/aby3/network.rs b/iris-mpc/src/aby3/network.rs
index cda2e8b..ff96498 100644
--- a/iris-mpc/src/aby3/network.rs
+++ b/iris-mpc/src/aby3/network.rs
@@ -160,10 +160,15 @@ impl NetworkTrait for Aby3Network {
             channel_send,
             channel_recv,
             handler,
-            ..
+            id,
         } = self;
-        drop(channel_recv);
-        drop(channel_send);
+        // closing a connection discards what is still on its way, so wait until the peers have it
+        for channel in [channel_send, channel_recv] {
+            if let Err(e) = channel.finish().await {
+                // the peer closed the connection first
+                tracing::trace!("finish {id}: {e}");
+            }
+        }
 
         handler.shutdown().await;
         Ok(())
diff --git a/mpc-net/src/channel.rs b/mpc-net/src/channel.rs
index 32c6862..8600b1f 100644
--- a/mpc-net/src/channel.rs
+++ b/mpc-net/src/channel.rs
@@ -7,6 +7,7 @@ use std::{
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     sync::{mpsc, oneshot},
+    task::JoinHandle,
 };
 use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite, LengthDelimitedCodec};
 
@@ -129,6 +130,7 @@ struct ReadJob<MRecv> {
 pub struct ChannelHandle<MSend, MRecv> {
     write_job_queue: mpsc::Sender<WriteJob<MSend>>,
     read_job_queue: mpsc::Sender<ReadJob<MRecv>>,
+    write_task: JoinHandle<Result<(), io::Error>>,
 }
 
 impl<MSend, MRecv> ChannelHandle<MSend, MRecv>
@@ -165,7 +167,7 @@ where
                 }
             }
         });
-        tokio::spawn(async move {
+        let write_task = tokio::spawn(async move {
             while let Some(write_job) = write_recv.recv().await {
                 let write_result = write.send(write_job.data).await;
                 // we don't really care if the receiver for a write job is gone, as this is a common case
@@ -177,14 +179,27 @@ where
                     }
                 }
             }
+            write.close().await
         });
 
         ChannelHandle {
             write_job_queue: write_send,
             read_job_queue: read_send,
+            write_task,
         }
     }
 
+    /// Write everything that is still queued, close the write half and wait until this is done.
+    pub async fn finish(self) -> Result<(), io::Error> {
+        let Self {
+            write_job_queue,
+            write_task,
+            ..
+        } = self;
+        drop(write_job_queue);
+        write_task.await?
+    }
+
     pub async fn send(&mut self, data: MSend) -> oneshot::Receiver<Result<(), io::Error>> {
         let (ret, recv) = oneshot::channel();
         let job = WriteJob { data, ret };
-- 
2.43.0


From 864d2a34dce8559c3bdbbad622a8ab9711067b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 15/26] fix: reject messages that are too long for the network

---
 iris-mpc/src/aby3/network.rs | 17 ++++++++++++++++-
 mpc-net/src/channel.rs       |  5 +++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/aby3/network.rs b/iris-mpc/src/aby3/network.rs
index ff96498..584b681 100644
--- a/iris-mpc/src/aby3/network.rs
+++ b/iris-mpc/src/aby3/network.rs
@@ -4,7 +4,7 @@ use super::id::PartyID;
 use crate::error::Error;
 use crate::traits::network_trait::NetworkTrait;
 use bytes::{Bytes, BytesMut};
-use mpc_net::channel::ChannelHandle;
+use mpc_net::channel::{self, ChannelHandle};
 use mpc_net::config::NetworkConfig;
 use mpc_net::MpcNetworkHandler;
 
@@ -43,6 +43,18 @@ impl Aby3Network {
     }
 }
 
+/// The result of a queued send is not awaited, so reject early what can never be sent
+fn check_length(data: &Bytes) -> io::Result<()> {
+    let max = channel::max_message_length();
+    if data.len() > max {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("message of {} bytes exceeds {max} bytes", data.len()),
+        ));
+    }
+    Ok(())
+}
+
 impl NetworkTrait for Aby3Network {
     fn get_id(&self) -> usize {
         self.id.into()
@@ -58,6 +70,7 @@ impl NetworkTrait for Aby3Network {
 
     async fn send(&mut self, id: usize, data: Bytes) -> io::Result<()> {
         tracing::trace!("send_id {}->{}: {:?}", self.id, id, data);
+        check_length(&data)?;
         let res = if id == usize::from(self.id.next_id()) {
             let send_status = self.channel_send.send(data).await;
             std::mem::drop(send_status);
@@ -75,6 +88,7 @@ impl NetworkTrait for Aby3Network {
 
     async fn send_next_id(&mut self, data: Bytes) -> io::Result<()> {
         tracing::trace!("send {}->{}: {:?}", self.id, self.id.next_id(), data);
+        check_length(&data)?;
         let send_status = self.channel_send.send(data).await;
         std::mem::drop(send_status);
         tracing::trace!("send {}->{}: done", self.id, self.id.next_id());
@@ -83,6 +97,7 @@ impl NetworkTrait for Aby3Network {
 
     async fn send_prev_id(&mut self, data: Bytes) -> io::Result<()> {
         tracing::trace!("send {}->{}: {:?}", self.id, self.id.prev_id(), data);
+        check_length(&data)?;
         let send_status = self.channel_recv.send(data).await;
         std::mem::drop(send_status);
         tracing::trace!("send {}->{}: done", self.id, self.id.prev_id());
diff --git a/mpc-net/src/channel.rs b/mpc-net/src/channel.rs
index 8600b1f..ba097d5 100644
--- a/mpc-net/src/channel.rs
+++ b/mpc-net/src/channel.rs
@@ -14,6 +14,11 @@ use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite, LengthDelimit
 pub type ReadChannel<T, D> = FramedRead<T, D>;
 pub type WriteChannel<T, E> = FramedWrite<T, E>;
 
+/// The length of the longest message a [`BytesChannel`] transports.
+pub fn max_message_length() -> usize {
+    LengthDelimitedCodec::new().max_frame_length()
+}
+
 #[derive(Debug)]
 pub struct Channel<R, W, C> {
     read_conn: ReadChannel<R, C>,
-- 
2.43.0


From 06ef36ec543ce003c78cf037a04ddd779e0781b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 16/26] hook: re-export the party identity (cfg iris_mc)

---
 iris-mpc/src/mc_hooks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iris-mpc/src/mc_hooks.rs b/iris-mpc/src/mc_hooks.rs
index 83938c1..07d1d5e 100644
--- a/iris-mpc/src/mc_hooks.rs
+++ b/iris-mpc/src/mc_hooks.rs
@@ -1,4 +1,5 @@
 //! Names the model checker needs from outside this crate.  Compiled only with `--cfg iris_mc`.
+pub use crate::aby3::id::PartyID;
 pub use crate::traits::binary_trait::BinaryMpcTrait;
 pub use crate::traits::share_trait::ShareTrait;
 pub use crate::types::int_ring::IntRing2k;
-- 
2.43.0


From 6d2dacfa604718744656e5ae6d08f0777dc66970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 17/26] fix: reject masked dot products with missing masks or
 codes of the wrong size

---
 iris-mpc/src/aby3/protocol.rs     | 8 ++++----
 iris-mpc/src/spdzwise/protocol.rs | 5 ++++-
 iris-mpc/src/traits/mpc_trait.rs  | 7 +++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index ec7dd9a..7be9d47 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -471,7 +471,10 @@ where
         b: &[Vec<Share<T>>],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+        if b.iter().any(|b_| b_.len() != a.len()) {
             return Err(Error::InvalidSizeError);
         }
 
@@ -479,9 +482,6 @@ where
 
         for (b_, mask_) in b.iter().zip(masks.iter()) {
             let mut rand = self.prf.gen_zero_share::<T>();
-            if a.len() != b_.len() {
-                return Err(Error::InvalidSizeError);
-            }
             for ((a__, b__), bit) in a.iter().zip(b_.iter()).zip(mask_.bits()) {
                 // only aggregate if mask is set
                 if bit {
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 61b51fa..6cbe548 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1171,7 +1171,10 @@ where
         masks: &[IrisCodeArray],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = b.len();
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || len != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+        if b.iter().any(|b_| b_.len() != a.len()) {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/traits/mpc_trait.rs b/iris-mpc/src/traits/mpc_trait.rs
index d5fff1c..97b1356 100644
--- a/iris-mpc/src/traits/mpc_trait.rs
+++ b/iris-mpc/src/traits/mpc_trait.rs
@@ -54,6 +54,13 @@ pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait> {
         b: &[Ashare::VecShare],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Ashare>, Error> {
+        if b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+            return Err(Error::InvalidCodeSizeError);
+        }
+
         let mut a_vec = Vec::with_capacity(b.len());
         let mut b_vec = Vec::with_capacity(b.len());
 
-- 
2.43.0


From b8977308973d3ee556d7b4c1ffff0b95702f047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 18/26] fix: check the lengths of a batch of vectors before
 drawing randomness

---
 iris-mpc/src/aby3/protocol.rs     | 5 +----
 iris-mpc/src/aby3_mal/protocol.rs | 2 +-
 iris-mpc/src/spdzwise/protocol.rs | 6 +-----
 3 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index 7be9d47..08c96c1 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -436,7 +436,7 @@ where
         a: &[Vec<Share<T>>],
         b: &[Vec<Share<T>>],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != b.len() {
+        if a.len() != b.len() || a.iter().zip(b).any(|(a_, b_)| a_.len() != b_.len()) {
             return Err(Error::InvalidSizeError);
         }
 
@@ -444,9 +444,6 @@ where
 
         for (a_, b_) in a.iter().zip(b.iter()) {
             let mut rand = self.prf.gen_zero_share::<T>();
-            if a_.len() != b_.len() {
-                return Err(Error::InvalidSizeError);
-            }
             for (a__, b__) in a_.iter().zip(b_.iter()) {
                 rand += (a__.clone() * b__).a; // TODO: check if we can allow ref * ref ops in RingImpl
             }
diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aaca85a..aed01df 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1205,7 +1205,7 @@ where
         b: &[Vec<Share<T>>],
     ) -> Result<Vec<Share<T>>, Error> {
         let len = a.len();
-        if len != b.len() {
+        if len != b.len() || a.iter().zip(b).any(|(a_, b_)| a_.len() != b_.len()) {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 6cbe548..1918c48 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1110,7 +1110,7 @@ where
         b: &[VecTShare<T>],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = a.len();
-        if len != b.len() {
+        if len != b.len() || a.iter().zip(b).any(|(a_, b_)| a_.len() != b_.len()) {
             return Err(Error::InvalidSizeError);
         }
 
@@ -1121,10 +1121,6 @@ where
             let (a_v, a_m) = a.get();
             let b_v = b.get_values();
 
-            if a_v.len() != b_v.len() {
-                return Err(Error::InvalidSizeError);
-            }
-
             let mut rand = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
             let mut rand2 = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
 
-- 
2.43.0


From f352631f449c83f0318c0a1b9fa37c24ac6108d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 19/26] fix: notice a missing input before drawing randomness

---
 iris-mpc/src/aby3/protocol.rs     | 13 ++++++++-----
 iris-mpc/src/aby3_mal/protocol.rs |  8 ++++----
 iris-mpc/src/spdzwise/protocol.rs | 10 +++++-----
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index 08c96c1..77b4ee3 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -288,12 +288,15 @@ where
             return Err(Error::IdError(id));
         }
 
+        // Nothing is drawn for a call that fails, the streams have to stay in step
+        let is_dealer = id == self.network.get_id();
+        if is_dealer && input.is_none() {
+            return Err(Error::ValueError("Cannot share None".to_string()));
+        }
+
         let mut share_a = self.prf.gen_zero_share::<T>();
-        if id == self.network.get_id() {
-            let value = match input {
-                Some(x) => x.to_sharetype(),
-                None => return Err(Error::ValueError("Cannot share None".to_string())),
-            };
+        if is_dealer {
+            let value = input.expect("is checked above").to_sharetype();
             share_a += value;
         }
 
diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aed01df..f7fb002 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1002,15 +1002,15 @@ where
             return Err(Error::IdError(id));
         }
         let my_id = self.get_id();
+        if id == my_id && input.is_none() {
+            return Err(Error::ValueError("Cannot share None".to_string()));
+        }
 
         let mut share = self.prf.gen_rand::<T>();
         let opened = self.reconstruct_id(share.to_owned(), id).await?;
 
         let res = if id == my_id {
-            let value = match input {
-                Some(x) => x,
-                None => return Err(Error::ValueError("Cannot share None".to_string())),
-            };
+            let value = input.expect("is checked above");
             let value =
                 value.to_sharetype() - opened.expect("msg should be received").to_sharetype();
             share.a += &value;
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 1918c48..df8b905 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -798,15 +798,15 @@ where
             return Err(Error::IdError(id));
         }
         let my_id = self.get_id();
+        if my_id == id && input.is_none() {
+            return Err(Error::ValueError("Cannot share None".to_string()));
+        }
 
         // The dealer alone decides the sharing: a party that could add to it could shift the input
         let (rand_a, rand_b) = self.aby3.prf.gen_rands::<UShare<T>>();
         let value = if my_id == id {
-            let input = match input {
-                Some(x) => T::to_verificationshare(x).to_sharetype(),
-                None => return Err(Error::ValueError("Cannot share None".to_string())),
-            };
-            let rest = input - &rand_a;
+            let input = input.expect("is checked above");
+            let rest = T::to_verificationshare(input).to_sharetype() - &rand_a;
             utils::send_value_prev(&mut self.aby3.network, rest.to_owned()).await?;
             Aby3Share::new(rand_a, rest)
         } else if my_id == (id + 1) % 3 {
-- 
2.43.0


From 329f5dbafa8ff252332d426e7ea9ae3e792cea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 20/26] fix: reject empty OR reductions and chunks of size
 zero, accept the largest

---
 iris-mpc/src/aby3/utils.rs        | 3 +++
 iris-mpc/src/aby3_mal/protocol.rs | 2 +-
 iris-mpc/src/iris/protocol.rs     | 6 +++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 4dbc577..e7ab01d 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -309,6 +309,9 @@ where
         + 'static,
 {
     let mut num = inputs.len();
+    if num == 0 || chunk_size == 0 {
+        return Err(Error::InvalidSizeError);
+    }
 
     while num > 1 {
         let mod_ = num & 1;
diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index f7fb002..d117ce1 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1232,7 +1232,7 @@ where
         a: Vec<Share<Bit>>,
         chunk_size: usize,
     ) -> Result<Share<Bit>, Error> {
-        let chunk_size = chunk_size * 128;
+        let chunk_size = chunk_size.saturating_mul(128);
         utils::or_tree::<Bit, _, _>(self, a, chunk_size).await
     }
 
diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 83715ac..a319e82 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -248,8 +248,8 @@ where
 
         // ripple carry adder: 2 * K - 2
         // each chunk is packed to registers of 128 bits on its own
-        let registers = (amount / chunk_size) * ((chunk_size + 127) / 128)
-            + (amount % chunk_size + 127) / 128;
+        let registers = (amount / chunk_size) * chunk_size.div_ceil(128)
+            + (amount % chunk_size).div_ceil(128);
         registers * 128 * (T::Share::K * 2 - 3)
     }
 
@@ -262,7 +262,7 @@ where
         chunk_size: usize,
     ) -> Result<bool, Error> {
         let amount = db.len();
-        if (amount != mask_db.len()) || (amount == 0) {
+        if (amount != mask_db.len()) || (amount == 0) || (chunk_size == 0) {
             return Err(Error::InvalidSizeError);
         }
 
-- 
2.43.0


From 01695c4e53f2f1d07de09d05643b3aad71cc3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 21/26] fix: extract the signs of no values without panicking

---
 iris-mpc/src/aby3/protocol.rs     | 3 +++
 iris-mpc/src/spdzwise/protocol.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index 77b4ee3..96d1478 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -200,6 +200,9 @@ impl<N: NetworkTrait> Aby3<N> {
         if len != x2.len() || len != x3.len() {
             return Err(Error::InvalidSizeError);
         }
+        if len == 0 {
+            return Ok(Vec::new());
+        }
 
         let x1 = utils::transpose_pack_u128::<T>(x1);
         let x2 = utils::transpose_pack_u128::<T>(x2);
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index df8b905..4c872bd 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -668,6 +668,9 @@ where
         if len != x2.len() || len != x3.len() {
             return Err(Error::InvalidSizeError);
         }
+        if len == 0 {
+            return Ok(Vec::new());
+        }
 
         let x1 = utils::transpose_pack_u128::<T>(x1);
         let x2 = utils::transpose_pack_u128::<T>(x2);
-- 
2.43.0


From 1345e132fb8ab6ce349dee715fccdddb666c1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 22/26] fix: report a ring too wide for the product checks
 instead of panicking

---
 iris-mpc/src/aby3_mal/protocol.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index d117ce1..2385f26 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -229,7 +229,9 @@ impl<N: NetworkTrait> MalAby3<N> {
         #[allow(type_alias_bounds)]
         type UShare<T: Sharable> = <T::VerificationShare as Sharable>::Share;
 
-        assert!(UShare::<T>::K - T::Share::K >= 40);
+        if UShare::<T>::K - T::Share::K < 40 {
+            return Err(Error::ConfigError);
+        }
 
         let a = self.prf.gen_rand::<T::VerificationShare>();
         let a_ = self.prf.gen_rand::<T::VerificationShare>();
@@ -311,7 +313,9 @@ impl<N: NetworkTrait> MalAby3<N> {
         #[allow(type_alias_bounds)]
         type UShare<T: Sharable> = <T::VerificationShare as Sharable>::Share;
 
-        assert!(UShare::<T>::K - T::Share::K >= 40);
+        if UShare::<T>::K - T::Share::K < 40 {
+            return Err(Error::ConfigError);
+        }
 
         let mut a_mul: Vec<Share<T::VerificationShare>> = (0..len)
             .map(|_| self.prf.gen_rand::<T::VerificationShare>())
@@ -455,7 +459,9 @@ impl<N: NetworkTrait> MalAby3<N> {
         #[allow(type_alias_bounds)]
         type UShare<T: Sharable> = <T::VerificationShare as Sharable>::Share;
 
-        assert!(UShare::<T>::K - T::Share::K >= 40);
+        if UShare::<T>::K - T::Share::K < 40 {
+            return Err(Error::ConfigError);
+        }
 
         let a = a
             .into_iter()
@@ -557,7 +563,9 @@ impl<N: NetworkTrait> MalAby3<N> {
         #[allow(type_alias_bounds)]
         type UShare<T: Sharable> = <T::VerificationShare as Sharable>::Share;
 
-        assert!(UShare::<T>::K - T::Share::K >= 40);
+        if UShare::<T>::K - T::Share::K < 40 {
+            return Err(Error::ConfigError);
+        }
 
         let mut a_mul = a
             .iter()
-- 
2.43.0


From a876a23a66f96a66455789c9924a502bb1474e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 23/26] fix: keep the MAC key of an existing sample database

---
 iris-mpc/src/bin/create_sample_data.rs | 40 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/iris-mpc/src/bin/create_sample_data.rs b/iris-mpc/src/bin/create_sample_data.rs
index 6d64deb..04fac0a 100644
--- a/iris-mpc/src/bin/create_sample_data.rs
+++ b/iris-mpc/src/bin/create_sample_data.rs
@@ -6,7 +6,7 @@ use iris_mpc::prelude::{Aby3, Aby3Network, MpcTrait, SpdzWise, Swift3, Swift3Net
 use plain_reference::IrisCode;
 use rand::{Rng, SeedableRng};
 use rand_chacha::ChaCha12Rng;
-use rusqlite::Connection;
+use rusqlite::{Connection, OptionalExtension};
 
 #[derive(Parser)]
 #[command(author, version, about, long_about = None)]
@@ -206,7 +206,18 @@ fn create_spdzwise_db(opts: Opts) -> Result<()> {
         Some(seed) => ChaCha12Rng::seed_from_u64(seed),
         None => ChaCha12Rng::from_entropy(),
     };
-    let mac_key = rng.gen::<u64>();
+    let new_mac_key = rng.gen::<u64>();
+
+    // All codes of a database are authenticated with the same key
+    let stored_mac_key = conn
+        .query_row("SELECT key FROM mac_key;", [], |row| {
+            row.get::<_, Vec<u8>>(0)
+        })
+        .optional()?;
+    let mac_key = match &stored_mac_key {
+        Some(key) => bincode::deserialize(key)?,
+        None => new_mac_key,
+    };
 
     let mut codes = Vec::with_capacity(num_items as usize);
     for _ in 0..num_items {
@@ -214,21 +225,24 @@ fn create_spdzwise_db(opts: Opts) -> Result<()> {
         codes.push(code);
     }
     // Insert the mac key into the database
-    let transaction = conn.transaction()?;
-    let mut stmt = transaction
-        .prepare("INSERT INTO mac_key (key, share_a, share_b, share_c) VALUES (?1, ?2, ?3, ?4)")?;
+    if stored_mac_key.is_none() {
+        let transaction = conn.transaction()?;
+        let mut stmt = transaction.prepare(
+            "INSERT INTO mac_key (key, share_a, share_b, share_c) VALUES (?1, ?2, ?3, ?4)",
+        )?;
 
-    let shares = Aby3::<Aby3Network>::share(mac_key, 0, &mut rng);
+        let shares = Aby3::<Aby3Network>::share(mac_key, 0, &mut rng);
 
-    let mac_key_ = bincode::serialize(&mac_key)?;
-    let data_a = bincode::serialize(&shares[0].to_owned().get_a())?;
-    let data_b = bincode::serialize(&shares[1].to_owned().get_a())?;
-    let data_c = bincode::serialize(&shares[2].to_owned().get_a())?;
+        let mac_key_ = bincode::serialize(&mac_key)?;
+        let data_a = bincode::serialize(&shares[0].to_owned().get_a())?;
+        let data_b = bincode::serialize(&shares[1].to_owned().get_a())?;
+        let data_c = bincode::serialize(&shares[2].to_owned().get_a())?;
 
-    stmt.execute([&mac_key_, &data_a, &data_b, &data_c])?;
+        stmt.execute([&mac_key_, &data_a, &data_b, &data_c])?;
 
-    drop(stmt);
-    transaction.commit()?;
+        drop(stmt);
+        transaction.commit()?;
+    }
 
     // Insert the codes into the database
     let transaction = conn.transaction()?;
-- 
2.43.0


From 93af25380717cc0c95a835de8251d48c26190f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:21 +0000
Subject: [PATCH 24/26] fix: coin the thetas of the Swift3 verification

---
 iris-mpc/src/swift3/protocol.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 5d5731c..49f5ad7 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -640,11 +640,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas: they must not be known before the messages to verify are sent
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_and_dzkp::<ChaCha12Rng>(l, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.and_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -722,11 +723,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas: they must not be known before the messages to verify are sent
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.mul_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -805,11 +807,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas: they must not be known before the messages to verify are sent
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.dot_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
-- 
2.43.0


From b054614384869aeaca9761ee3329007092979549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:46 +0000
Subject: [PATCH 25/26] fix: compare polynomials regardless of leading zeros

---
 iris-mpc/src/dzkp/polynomial.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index d8c48b8..b69e219 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -30,12 +30,24 @@ impl<T: RingImpl> PolyTrait for T {}
 impl<T: RingImpl> PolyTrait for Poly<T> {}
 impl PolyTrait for GF2p64 {}
 
-#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
+#[derive(Clone, Debug, Default, Serialize, Deserialize)]
 #[serde(bound = "")]
 pub(crate) struct Poly<T: PolyTrait> {
     pub coeffs: Vec<T>,
 }
 
+// Leading zeros do not matter: how many there are depends on how a polynomial was computed
+impl<T: PolyTrait> PartialEq for Poly<T> {
+    fn eq(&self, other: &Self) -> bool {
+        let len = std::cmp::min(self.coeffs.len(), other.coeffs.len());
+        self.coeffs[..len] == other.coeffs[..len]
+            && self.coeffs[len..].iter().all(|c| c.is_zero())
+            && other.coeffs[len..].iter().all(|c| c.is_zero())
+    }
+}
+
+impl<T: PolyTrait + Eq> Eq for Poly<T> {}
+
 impl<T: PolyTrait> Poly<T> {
     pub fn from_vec(coeffs: Vec<T>) -> Self {
         Self { coeffs }
-- 
2.43.0


From dffb22119d69659106175cbec3654428fb4e2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:11 +0000
Subject: [PATCH 26/26] mc hooks: equality of polynomials

---
 iris-mpc/src/mc_hooks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/mc_hooks.rs b/iris-mpc/src/mc_hooks.rs
index 07d1d5e..811af43 100644
--- a/iris-mpc/src/mc_hooks.rs
+++ b/iris-mpc/src/mc_hooks.rs
@@ -210,6 +210,9 @@ pub mod poly {
         a.shrink();
         a.coeffs
     }
+    pub fn equal<R: RingImpl>(a: &[R], b: &[R]) -> bool {
+        p(a) == p(b)
+    }
     pub fn is_zero<R: RingImpl>(a: &[R]) -> bool {
         p(a).is_zero()
     }
-- 
2.43.0

