From 7032fd4c999ce05f9b703b73440ee776c37ea004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:34 +0000
Subject: [PATCH 1/9] fix: report ECDSAInvalidSignature when ecrecover returns
 no data

---
 contracts/src/utils/cryptography/ecdsa.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/src/utils/cryptography/ecdsa.rs b/contracts/src/utils/cryptography/ecdsa.rs
index 89d6d45..e1c1183 100644
--- a/contracts/src/utils/cryptography/ecdsa.rs
+++ b/contracts/src/utils/cryptography/ecdsa.rs
@@ -145,6 +145,11 @@ fn _recover(
         call::static_call(Call::new_in(storage), ECRECOVER_ADDR, &calldata)
             .expect("should call `ecrecover` precompile");
 
+    // `ecrecover` returns no data for the signatures it rejects.
+    if recovered.len() != 32 {
+        return Err(ECDSAInvalidSignature {}.into());
+    }
+
     let recovered = Address::from_slice(&recovered[12..]);
 
     if recovered.is_zero() {
-- 
2.43.0


From 9049c45f72dd994e4a0ce43d9fc38412e828a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:34 +0000
Subject: [PATCH 2/9] fix: clear the storage cache around SafeErc20 token calls

A token that calls back into the contract may change its storage; a merely
flushed cache keeps serving the values read before the call.
---
 contracts/src/token/erc20/utils/safe_erc20.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc20/utils/safe_erc20.rs b/contracts/src/token/erc20/utils/safe_erc20.rs
index 2d493c1..b055db6 100644
--- a/contracts/src/token/erc20/utils/safe_erc20.rs
+++ b/contracts/src/token/erc20/utils/safe_erc20.rs
@@ -341,7 +341,7 @@ impl SafeErc20 {
         unsafe {
             match RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
             {
                 Ok(data) if data.is_empty() || Self::encodes_true(&data) => {
@@ -375,7 +375,7 @@ impl SafeErc20 {
         let result = unsafe {
             RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
                 .map_err(|_| {
                     Error::SafeErc20FailedOperation(SafeErc20FailedOperation {
-- 
2.43.0


From b520174e9128e596af045379807189d64feb90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:34 +0000
Subject: [PATCH 3/9] fix: reject short return data in SafeErc20

Data shorter than a word does not decode to a bool or an allowance.
---
 contracts/src/token/erc20/utils/safe_erc20.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc20/utils/safe_erc20.rs b/contracts/src/token/erc20/utils/safe_erc20.rs
index b055db6..e0481bb 100644
--- a/contracts/src/token/erc20/utils/safe_erc20.rs
+++ b/contracts/src/token/erc20/utils/safe_erc20.rs
@@ -344,7 +344,11 @@ impl SafeErc20 {
                 .clear_storage_cache()
                 .call(token, &call.abi_encode())
             {
-                Ok(data) if data.is_empty() || Self::encodes_true(&data) => {
+                Ok(data)
+                    if data.is_empty()
+                        || (data.len() == BOOL_TYPE_SIZE
+                            && Self::encodes_true(&data)) =>
+                {
                     Ok(())
                 }
                 _ => Err(SafeErc20FailedOperation { token }.into()),
@@ -384,6 +388,10 @@ impl SafeErc20 {
                 })?
         };
 
+        if result.len() != BOOL_TYPE_SIZE {
+            return Err(SafeErc20FailedOperation { token }.into());
+        }
+
         Ok(U256::from_be_slice(&result))
     }
 
-- 
2.43.0


From b24c09f01ef982b6636a51e447fe55324872311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:12 +0000
Subject: [PATCH 4/9] fix: check overflow of the batch total in Erc1155Supply

---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..e815bb2 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |total, value| total.checked_add(*value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From f088a65edfad52d0c4549606b1cca32c76fb0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:34 +0000
Subject: [PATCH 5/9] fix: keep consecutive token ids within the U96 range in
 Erc721Consecutive

---
 .../src/token/erc721/extensions/consecutive.rs    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..c011c23 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -321,7 +321,8 @@ impl Erc721Consecutive {
         to: Address,
         batch_size: U96,
     ) -> Result<U96, Error> {
-        let next = self._next_consecutive_id();
+        // Panics if the range of consecutive token ids is exhausted.
+        let next = U96::from(self._next_consecutive_id());
 
         // Minting a batch of size 0 is a no-op.
         if batch_size > U96::ZERO {
@@ -341,7 +342,9 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            let last = next
+                .checked_add(batch_size - uint!(1_U96))
+                .expect("should not exceed `U96::MAX` for consecutive ids");
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
@@ -394,7 +397,7 @@ impl Erc721Consecutive {
         // if we burn
         if to.is_zero()
             // and the token_id was minted in a batch
-            && token_id < U256::from(self._next_consecutive_id())
+            && token_id < self._next_consecutive_id()
             // and the token was never marked as burnt
             && !self.sequential_burn.get(token_id)
         {
@@ -412,10 +415,10 @@ impl Erc721Consecutive {
     /// # Arguments
     ///
     /// * `&self` - Read access to the contract's state.
-    fn _next_consecutive_id(&self) -> U96 {
+    fn _next_consecutive_id(&self) -> U256 {
         match self.sequential_ownership.latest_checkpoint() {
-            None => self._first_consecutive_id(),
-            Some((latest_id, _)) => latest_id + uint!(1_U96),
+            None => U256::from(self._first_consecutive_id()),
+            Some((latest_id, _)) => U256::from(latest_id) + uint!(1_U256),
         }
     }
 
-- 
2.43.0


From 0d61ecbcfce2e86623d20fe1bd885c54bd66d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 6/9] fix: keep owner enumeration intact on self-transfer in
 Erc721Enumerable

---
 contracts/src/token/erc721/extensions/enumerable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc721/extensions/enumerable.rs b/contracts/src/token/erc721/extensions/enumerable.rs
index 17eccfe..ff059e4 100644
--- a/contracts/src/token/erc721/extensions/enumerable.rs
+++ b/contracts/src/token/erc721/extensions/enumerable.rs
@@ -246,7 +246,11 @@ impl Erc721Enumerable {
         // To prevent a gap in from's tokens array,
         // we store the last token in the index of the token to delete,
         // and then delete the last slot (swap and pop).
-        let last_token_index = erc721.balance_of(from)?;
+        let mut last_token_index = erc721.balance_of(from)?;
+        // A transfer to oneself leaves the token counted in `from`'s balance.
+        if matches!(erc721.owner_of(token_id), Ok(owner) if owner == from) {
+            last_token_index -= uint!(1_U256);
+        }
         let token_index = self.owned_tokens_index.get(token_id);
 
         let mut owned_tokens_by_owner = self.owned_tokens.setter(from);
-- 
2.43.0


From b8acf63e845d06a7aa6954f2e3003fb079a8ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:20 +0000
Subject: [PATCH 7/9] test hook: reach the private Erc721Wrapper::_recover
 under --cfg vsim

---
 contracts/src/token/erc721/extensions/wrapper.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/contracts/src/token/erc721/extensions/wrapper.rs b/contracts/src/token/erc721/extensions/wrapper.rs
index 5ba15e6..2a7f5a8 100644
--- a/contracts/src/token/erc721/extensions/wrapper.rs
+++ b/contracts/src/token/erc721/extensions/wrapper.rs
@@ -296,6 +296,20 @@ impl Erc721Wrapper {
     }
 }
 
+/// Access for the deterministic simulator (`--cfg vsim`, off by default).
+#[cfg(vsim)]
+impl Erc721Wrapper {
+    /// Calls the private [`Erc721Wrapper::_recover`].
+    pub fn vsim_recover(
+        &mut self,
+        account: Address,
+        token_id: U256,
+        erc721: &mut Erc721,
+    ) -> Result<U256, Error> {
+        self._recover(account, token_id, erc721)
+    }
+}
+
 #[cfg(all(test, feature = "std"))]
 mod tests {
     use alloy_primitives::uint;
-- 
2.43.0


From b1ce4880ca34021a36bc9679b8d1109b8a66a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:20 +0000
Subject: [PATCH 8/9] fix: remainder of zero no longer underflows in
 WideUint::ct_rem

A dividend of zero has no bits, so the index of its last bit underflowed:
the call panicked instead of returning zero.
---
 lib/crypto/src/arithmetic/uint.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..535d1cd 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,13 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        let num_bits = self.ct_num_bits();
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0


From b92235a334339c9745e939ef5119f4e36a7f34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 9/9] test hook: the wasm limb multiplication runs in the
 simulator under --cfg vsim

---
 lib/crypto/src/arithmetic/limb.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/crypto/src/arithmetic/limb.rs b/lib/crypto/src/arithmetic/limb.rs
index b081869..e0341f6 100644
--- a/lib/crypto/src/arithmetic/limb.rs
+++ b/lib/crypto/src/arithmetic/limb.rs
@@ -22,6 +22,11 @@ pub type WideLimb = u128;
 #[inline(always)]
 #[must_use]
 pub const fn widening_mul(a: Limb, b: Limb) -> WideLimb {
+    // Simulation runs natively: use the wasm variant for half of the pairs.
+    #[cfg(vsim)]
+    if a <= b {
+        return widening_mul_wasm(a, b);
+    }
     #[cfg(not(target_family = "wasm"))]
     {
         a as WideLimb * b as WideLimb
-- 
2.43.0

