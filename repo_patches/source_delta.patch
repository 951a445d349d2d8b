From eb4b5781a7e2965f4d90dfc841eb2d659474d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 1/7] fix: report ECDSAInvalidSignature when ecrecover returns
 no data

---
 contracts/src/utils/cryptography/ecdsa.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/src/utils/cryptography/ecdsa.rs b/contracts/src/utils/cryptography/ecdsa.rs
index 89d6d45..698d0af 100644
--- a/contracts/src/utils/cryptography/ecdsa.rs
+++ b/contracts/src/utils/cryptography/ecdsa.rs
@@ -145,6 +145,11 @@ fn _recover(
         call::static_call(Call::new_in(storage), ECRECOVER_ADDR, &calldata)
             .expect("should call `ecrecover` precompile");
 
+    // The precompile returns no data when it can not recover the signer.
+    if recovered.is_empty() {
+        return Err(ECDSAInvalidSignature {}.into());
+    }
+
     let recovered = Address::from_slice(&recovered[12..]);
 
     if recovered.is_zero() {
-- 
2.43.0


From 0d92671336b35e9305e1a373f907a23d08bb1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:37 +0000
Subject: [PATCH 2/7] fix: keep consecutive ERC-721 ids from wrapping around
 U96::MAX

---
 .../token/erc721/extensions/consecutive.rs    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..8a4f851 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -316,6 +316,10 @@ impl Erc721Consecutive {
     /// # Events
     ///
     /// * [`ConsecutiveTransfer`].
+    ///
+    /// # Panics
+    ///
+    /// * If consecutive ids would exceed `U96::MAX`.
     pub fn _mint_consecutive(
         &mut self,
         to: Address,
@@ -341,7 +345,9 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            // Panics if `last` exceeds `U96::MAX`.
+            let last: U96 =
+                (next + U256::from(batch_size) - uint!(1_U256)).to();
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
@@ -353,13 +359,13 @@ impl Erc721Consecutive {
             );
 
             evm::log(ConsecutiveTransfer {
-                from_token_id: next.to::<U256>(),
+                from_token_id: next,
                 to_token_id: last.to::<U256>(),
                 from_address: Address::ZERO,
                 to_address: to,
             });
         };
-        Ok(next)
+        Ok(next.to())
     }
 
     /// Override of [`Erc721::_update`] that restricts normal minting to after
@@ -394,7 +400,7 @@ impl Erc721Consecutive {
         // if we burn
         if to.is_zero()
             // and the token_id was minted in a batch
-            && token_id < U256::from(self._next_consecutive_id())
+            && token_id < self._next_consecutive_id()
             // and the token was never marked as burnt
             && !self.sequential_burn.get(token_id)
         {
@@ -412,10 +418,11 @@ impl Erc721Consecutive {
     /// # Arguments
     ///
     /// * `&self` - Read access to the contract's state.
-    fn _next_consecutive_id(&self) -> U96 {
+    fn _next_consecutive_id(&self) -> U256 {
         match self.sequential_ownership.latest_checkpoint() {
-            None => self._first_consecutive_id(),
-            Some((latest_id, _)) => latest_id + uint!(1_U96),
+            None => U256::from(self._first_consecutive_id()),
+            // Not a `U96`: the latest id may be `U96::MAX`.
+            Some((latest_id, _)) => U256::from(latest_id) + uint!(1_U256),
         }
     }
 
-- 
2.43.0


From 6780f4433571c4ccef97604210c79c3ebaed7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 3/7] fix: reject ERC-1155 batch mints whose values sum beyond
 U256::MAX

---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..d8e161b 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |sum, &value| sum.checked_add(value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From 86012d4938c854103f4cc3d8ffdc8c5ddf0bda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:35 +0000
Subject: [PATCH 4/7] fix: do not report a wrapped releasable amount when a
 vested token's balance shrank

---
 contracts/src/finance/vesting_wallet.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/src/finance/vesting_wallet.rs b/contracts/src/finance/vesting_wallet.rs
index 9379e92..c79e402 100644
--- a/contracts/src/finance/vesting_wallet.rs
+++ b/contracts/src/finance/vesting_wallet.rs
@@ -258,6 +258,7 @@ pub trait IVestingWallet {
     ///
     /// * If total allocation exceeds `U256::MAX`.
     /// * If scaled, total allocation (mid calculation) exceeds `U256::MAX`.
+    /// * If the released amount exceeds the vested amount.
     #[selector(name = "releasable")]
     fn releasable_erc20(&mut self, token: Address)
         -> Result<U256, Self::Error>;
@@ -304,6 +305,7 @@ pub trait IVestingWallet {
     ///
     /// * If total allocation exceeds `U256::MAX`.
     /// * If scaled, total allocation (mid calculation) exceeds `U256::MAX`.
+    /// * If the released amount exceeds the vested amount.
     #[selector(name = "release")]
     fn release_erc20(&mut self, token: Address) -> Result<(), Self::Error>;
 
@@ -403,9 +405,11 @@ impl IVestingWallet for VestingWallet {
         token: Address,
     ) -> Result<U256, Self::Error> {
         let vested = self.vested_amount_erc20(token, block::timestamp())?;
-        // SAFETY: total vested amount is by definition greater than or equal to
-        // the released amount.
-        Ok(vested - self.released_erc20(token))
+        // The released amount can exceed the vested one if the token reduced the
+        // balance of this contract by itself, e.g. on a rebase.
+        Ok(vested
+            .checked_sub(self.released_erc20(token))
+            .expect("released amount should not exceed vested amount"))
     }
 
     #[selector(name = "release")]
-- 
2.43.0


From 13b157d3b1f470f70488dc94c09f3e83ada3048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:22 +0000
Subject: [PATCH 5/7] fix: return zero for the remainder of a zero WideUint

---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..7403f4d 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        let num_bits = self.ct_num_bits();
+        // Zero has no bits, and its remainder is zero.
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0


From 47b8f3f76d562c491682cd4213fec9d9855be0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:22 +0000
Subject: [PATCH 6/7] fix: report the bit size of the field modulus rather than
 of its representation

---
 lib/crypto/src/field/fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/src/field/fp.rs b/lib/crypto/src/field/fp.rs
index 1332a9d..246ea87 100644
--- a/lib/crypto/src/field/fp.rs
+++ b/lib/crypto/src/field/fp.rs
@@ -555,7 +555,7 @@ impl<P: FpParams<N>, const N: usize> PrimeField for Fp<P, N> {
     type BigInt = Uint<N>;
 
     const MODULUS: Self::BigInt = P::MODULUS;
-    const MODULUS_BIT_SIZE: usize = <Uint<N> as BigInteger>::BITS;
+    const MODULUS_BIT_SIZE: usize = P::MODULUS.ct_num_bits();
 
     #[inline]
     fn from_bigint(repr: Self::BigInt) -> Self {
-- 
2.43.0


From c6b28d9481d8bae38b2d9edfb585c3ac4cff2c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:22 +0000
Subject: [PATCH 7/7] fix: reduce u128 and i128 values wider than a single-limb
 field

---
 lib/crypto/src/field/fp.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/field/fp.rs b/lib/crypto/src/field/fp.rs
index 246ea87..1b8aa35 100644
--- a/lib/crypto/src/field/fp.rs
+++ b/lib/crypto/src/field/fp.rs
@@ -608,7 +608,18 @@ macro_rules! impl_fp_from_signed_int {
     };
 }
 
-impl_fp_from_unsigned_int!(u128);
+impl<P: FpParams<N>, const N: usize> From<u128> for Fp<P, N> {
+    fn from(other: u128) -> Self {
+        // `u128` may not fit into a single limb, so reduce it beforehand.
+        let other = if N == 1 {
+            other % u128::from(P::MODULUS.limbs[0])
+        } else {
+            other
+        };
+        Fp::from_bigint(Uint::from(other))
+    }
+}
+
 impl_fp_from_unsigned_int!(u64);
 impl_fp_from_unsigned_int!(u32);
 impl_fp_from_unsigned_int!(u16);
-- 
2.43.0

