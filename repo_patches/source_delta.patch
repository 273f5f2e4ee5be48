From a6db6b8c815d18ad8470bb47f7130959829c893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 01/42] fix: penalize_many leaves the ledger consistent on
 errors and repeated identities

On error the cached totals of the identities already processed had been
decremented while their packets stayed; an identity listed more than once
had its cache decremented by the sum but its packets only by the last amount.
---
 reputation/src/trs.rs | 61 +++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..575b478 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,40 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        for (id, mut next_v) in ids_fs {
+            // The same identity may appear more than once: take into account what has already
+            // been subtracted from it
+            let mut old_v = self.get(id);
+            if let Some(ts) = to_subtract.get(id) {
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error. Nothing has been modified yet
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    increment_cache(&mut to_subtract, id.clone(), ts);
+                }
+            }
+        }
+
+        // Update cache. Cannot fail because we just checked for overflow
+        for (id, ts) in to_subtract.iter() {
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From 33047375ed90eee8f2ae00feed82f6dbfd308658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 02/42] fix: inclusion proofs with more siblings than index
 bits no longer overflow the shift

---
 crypto/src/merkle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/src/merkle.rs b/crypto/src/merkle.rs
index 4c51de6..7b93ab1 100644
--- a/crypto/src/merkle.rs
+++ b/crypto/src/merkle.rs
@@ -309,7 +309,8 @@ impl<T: Copy + PartialEq> InclusionProof<T> {
         let mut elem = element;
         let hash_concat = self.hash_concat;
         for (level, h) in self.lemma.iter().enumerate() {
-            let h_on_the_left = ((self.index >> level) & 1) == 1;
+            // Levels beyond the width of the index have no bit set
+            let h_on_the_left = level < usize::BITS as usize && ((self.index >> level) & 1) == 1;
             elem = if h_on_the_left {
                 hash_concat(*h, elem)
             } else {
-- 
2.43.0


From 577f3dfb68c07ceaed20fa4dde0d25bbc446640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 03/42] fix: importing an extended key rejects a non-zero
 secret prefix byte

---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..10fd879 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From 40d7aee5ffce350ea0ae41608ab19ac47f045343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 04/42] fix: exporting an extended key with a path of 48 steps
 or more no longer overflows

---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 10fd879..5de3ba5 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -218,11 +218,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * usize::from(depth) // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 9783eecc17aec77b3c12070c2da94561b78af628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 05/42] fix: epoch_timestamp wraps after the period change when
 the second period is longer

---
 data_structures/src/chain/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..a370dff 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -4768,8 +4768,10 @@ impl EpochConstants {
             )
             .map_err(|_| EpochCalculationError::Overflow)?;
 
-            self.checkpoint_zero_timestamp_wit2
-                + i64::from((epoch - epochs_pre_v2) * Epoch::from(self.checkpoints_period_wit2))
+            i64::from(epoch - epochs_pre_v2)
+                .checked_mul(i64::from(self.checkpoints_period_wit2))
+                .and_then(|x| x.checked_add(self.checkpoint_zero_timestamp_wit2))
+                .ok_or(EpochCalculationError::Overflow)?
         } else {
             epoch_timestamp
         };
-- 
2.43.0


From ed758230aa5948ec0c04a2800802124e077b1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 06/42] fix: epoch_at wraps when the epochs before and after
 the period change do not fit in 32 bits

---
 data_structures/src/chain/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index a370dff..c2369f0 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -4735,7 +4735,9 @@ impl EpochConstants {
                     }
                 };
 
-            Ok(epochs_pre_v2 + epochs_post_v2)
+            epochs_pre_v2
+                .checked_add(epochs_post_v2)
+                .ok_or(EpochCalculationError::Overflow)
         } else {
             Epoch::try_from(timestamp - self.checkpoint_zero_timestamp)
                 .map(|epoch| epoch / Epoch::from(self.checkpoints_period))
-- 
2.43.0


From 5021c44c54fb305ea8cdba57bd82b914a15a5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 07/42] fix: the fee of a stake transaction wraps when its
 output and change do not fit in 64 bits

---
 validations/src/validations.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..06720a8 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -122,10 +122,14 @@ pub fn st_transaction_fee(
         None => 0,
     };
 
-    if out_value + change_value > in_value {
+    let spent_value = out_value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if spent_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - spent_value)
     }
 }
 
-- 
2.43.0


From b0600cef4b077264f1d492344f633435c905e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 08/42] fix: the fee of an unstake transaction wraps when its
 withdrawal and fee do not fit in 64 bits

---
 validations/src/validations.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 06720a8..3c433a1 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -145,7 +145,11 @@ pub fn ut_transaction_fee(
     let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
 
-    if out_value + fee_value > staked_amount {
+    let spent_value = out_value
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if spent_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
-- 
2.43.0


From f9cc80ccb5935ce144c686d3d316901492d4223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 09/42] fix: reject removing more stake than an entry holds

Stake::remove_stake subtracted without checking. An amount above the staked one panicked or, in release builds, left an
entry with an astronomical number of coins.
---
 data_structures/src/staking/errors.rs | 10 ++++++++++
 data_structures/src/staking/stake.rs  |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/data_structures/src/staking/errors.rs b/data_structures/src/staking/errors.rs
index 3001897..ee79832 100644
--- a/data_structures/src/staking/errors.rs
+++ b/data_structures/src/staking/errors.rs
@@ -25,6 +25,16 @@ where
         /// The minimum stakeable amount.
         minimum: Coins,
     },
+    /// The amount of coins being removed is above the amount of coins that are staked.
+    #[error(
+        "The amount of coins being removed ({amount}) is above the amount of coins that are staked ({staked})"
+    )]
+    AmountIsAboveStake {
+        /// The number of coins being removed.
+        amount: Coins,
+        /// The number of coins that are staked.
+        staked: Coins,
+    },
     /// Tried to query `Stakes` for information that belongs to the past.
     #[error(
         "Tried to query `Stakes` for information that belongs to the past. Query Epoch: {epoch} Latest Epoch: {latest}"
diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..8661481 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // Make sure that the entry holds at least the amount to be removed
+        if coins > self.coins {
+            Err(StakesError::AmountIsAboveStake {
+                amount: coins,
+                staked: self.coins,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From 54cc03686f86e9c2710c4eb31156de1639209de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 10/42] fix: do not leave an empty stake entry behind when
 staking is rejected

Stakes::add_stake created the entry before the amount was checked. After a rejected amount the tracker held an entry
without coins which was in none of the indexes, and staking again with the same key never added it to them.
---
 data_structures/src/staking/stakes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..7dc9123 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -224,6 +224,14 @@ where
     {
         let key = key.into();
 
+        // Do not create a stake entry for an amount that is going to be rejected
+        if coins < minimum_stakeable {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: coins,
+                minimum: minimum_stakeable,
+            })?;
+        }
+
         // Find or create a matching stake entry
         let stake_found = self.by_key.contains_key(&key);
         let stake = self
-- 
2.43.0


From f500923aac87099e795e6f40d26750f3570ab798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 11/42] fix: take the entry that ran out of stake, not any
 empty one, out of the indexes

Stakes::remove_stake dropped the first indexed entry without coins. An entry can also be emptied by reserving all its coins
as collateral and stays in the tracker then: unstaking everything from another validator of the same withdrawer could drop
the wrong one.
---
 data_structures/src/staking/stakes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index 7dc9123..ffb7c2d 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -417,7 +417,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
@@ -428,7 +428,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
-- 
2.43.0


From 89a5f3682e11ac338e19f89aafe58345076bcc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 12/42] fix: keep the first vote of an identity when it votes
 again for the same superblock

---
 data_structures/src/superblock.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..85a5f01 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -168,12 +168,9 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time
+        if !self.votes_of_each_identity.contains_key(&pkh) {
+            self.votes_of_each_identity.insert(pkh, sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From 8fb883e203ced0a08e6f1bea06b2a2e1a56721e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 13/42] fix: compare block candidates by stake power in every
 protocol from 2.0 on, not just in 2.0

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 3c433a1..9329eba 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2838,7 +2838,7 @@ pub fn compare_block_candidates(
     s: &VrfSlots,
     protocol_version: ProtocolVersion,
 ) -> Ordering {
-    if protocol_version == ProtocolVersion::V2_0 {
+    if protocol_version >= ProtocolVersion::V2_0 {
         match b1_power.cmp(&b2_power) {
             // Equal power, first compare VRF hash and finally the block hash
             Ordering::Equal => {
-- 
2.43.0


From f614d97c4acaa96ef5ad9fe3257b010dcc599b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 14/42] fix: keep a session that cannot be consolidated among
 the unconsolidated ones

---
 p2p/src/sessions/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..a1d8f85 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -292,7 +292,16 @@ where
         let cons_sessions = self.get_sessions(session_type, SessionStatus::Consolidated)?;
 
         // Register session into consolidated collection
-        cons_sessions.register_session(address, session_info.reference)?;
+        if let Err(error) = cons_sessions.register_session(address, session_info.reference.clone())
+        {
+            // The session could not be consolidated but it is still alive: keep it as unconsolidated
+            // so that it can be properly unregistered later
+            self.get_sessions(session_type, SessionStatus::Unconsolidated)?
+                .collection
+                .insert(address, session_info);
+
+            return Err(error);
+        }
 
         Ok(())
     }
-- 
2.43.0


From cc9c1cc8a80865a4ce19f25e1ad6c074064a205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 15/42] fix: do not release the network range of an inbound
 session while another one is in it

---
 p2p/src/sessions/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index a1d8f85..09ccb55 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -269,9 +269,22 @@ where
         sessions.unregister_session(address)?;
 
         // Unegister network range to allow other peers in same network range as the one we are
-        // removing to take its place
+        // removing to take its place, unless there is still another peer in that range
         if session_type == SessionType::Inbound {
-            self.inbound_network_ranges.remove_address(&address);
+            let ranges = &self.inbound_network_ranges;
+            let is_range_in_use = self
+                .inbound_unconsolidated
+                .collection
+                .keys()
+                .any(|other| ranges.are_in_same_range(other, &address))
+                || self
+                    .inbound_consolidated
+                    .collection
+                    .keys()
+                    .any(|other| ranges.are_in_same_range(other, &address));
+            if !is_range_in_use {
+                self.inbound_network_ranges.remove_address(&address);
+            }
         }
 
         Ok(())
@@ -424,6 +437,11 @@ impl NetworkRangesCollection {
         self.inner.get(&range)
     }
 
+    /// Checks whether two socket addresses fall in the same range.
+    pub fn are_in_same_range(&self, one: &SocketAddr, other: &SocketAddr) -> bool {
+        get_range_address(one, self.range_limit) == get_range_address(other, self.range_limit)
+    }
+
     /// Insert a range into the collection as derived from a socket address.
     pub fn insert_address(&mut self, address: &SocketAddr) -> bool {
         let range_vec = get_range_address(address, self.range_limit);
-- 
2.43.0


From cda5138e7a3cd20a6821699f35a4ee239207d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 16/42] fix: a rejected tally must not remove the data request
 from the pool

---
 data_structures/src/data_request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index f2cf5bb..7318108 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -248,6 +248,13 @@ impl DataRequestPool {
     ) -> Result<DataRequestInfo, anyhow::Error> {
         let dr_pointer = tally_tx.dr_pointer;
 
+        // A rejected tally must leave the data request in the pool
+        if let Some(dr_state) = data_request_pool.get(&dr_pointer)
+            && dr_state.stage != DataRequestStage::TALLY
+        {
+            return Err(DataRequestError::NotTallyStage.into());
+        }
+
         let dr_state: Result<DataRequestState, anyhow::Error> =
             data_request_pool.remove(&dr_pointer).ok_or_else(|| {
                 DataRequestError::AddTallyFail {
-- 
2.43.0


From e37f28a6f7f94e565ef5600d4d78a42430a63499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 17/42] fix: since wit/2 the only output of a tally is the
 change of the requester

---
 validations/src/validations.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 9329eba..2c5deb5 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1284,6 +1284,15 @@ pub fn validate_tally_transaction<'a>(
                 }
             }
 
+            // Witnesses are not paid through the outputs of a tally since wit/2: the only output is the tally change
+            if protocol_version >= ProtocolVersion::V2_0 {
+                return Err(TransactionError::InvalidReward {
+                    value: output.value,
+                    expected_value: 0,
+                }
+                .into());
+            }
+
             // Validation of a honest witness would not be rewarded more than once
             if pkh_rewarded.contains(&output.pkh) {
                 return Err(TransactionError::MultipleRewards { pkh: output.pkh }.into());
-- 
2.43.0


From b2857d2b506c053a8b55ca6c42b181fe2ac1e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 18/42] fix: count the items of a mode without overflowing

The mode reducer and filter counted in an i8: from 128 equal items on the
counter overflowed (a panic in debug builds; in release it wrapped, so
that a rarer item won the tally, or a tie panicked).
---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..9d02923 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, usize> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 9493145eb6bdaa647aab003f9e48930a96eff528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 19/42] fix: getting a number from an array or map without
 arguments is an error, not a panic

---
 rad/src/operators/array.rs | 2 +-
 rad/src/operators/map.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..dc3ac84 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,7 +99,7 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
+    let item = get::<RadonString, _>(input, args.get(..1).unwrap_or_default())?.value();
     let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
 
     Ok(RadonString::from(string::replace_separators(
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..3b7239b 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,7 +57,7 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
+    let item = get::<RadonString, _>(input, args.get(..1).unwrap_or_default())?.value();
     let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
 
     Ok(RadonString::from(string::replace_separators(
-- 
2.43.0


From 447a4a186ed77051a922f58cc83594f580069978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 20/42] fix: slicing a string in the middle of a character is
 an error, not a panic

---
 rad/src/operators/string.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..c6c07c0 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -499,14 +499,13 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
     end = end.min(input_length).max(0);
     let output_length = (end as usize).saturating_sub(start as usize);
 
-    // Only perform real slicing if the sliced range is not empty
+    // Only perform real slicing if the sliced range is not empty, and fail if it would split a
+    // multi-byte character
     let sliced_string = if output_length > 0 {
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..start as usize + output_length)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From d8110bb0e101712d1ae3b8da026126f64c57c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 21/42] fix: sorting an array by keys of different types is an
 error, not a panic

---
 rad/src/operators/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index dc3ac84..9840518 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -273,15 +273,15 @@ pub fn sort(
         });
     }
 
-    // Distinguish depending the type
+    // Distinguish depending the type (which needs to be the same for all the keys)
     match &mapped_array_value.first() {
-        Some(RadonTypes::String(_)) => {
+        Some(RadonTypes::String(_)) if mapped_array.is_homogeneous() => {
             tuple_array.sort_by(|a, b| match (a.1, b.1) {
                 (RadonTypes::String(a), RadonTypes::String(b)) => a.cmp(b),
                 _ => unreachable!(),
             });
         }
-        Some(RadonTypes::Integer(_)) => {
+        Some(RadonTypes::Integer(_)) if mapped_array.is_homogeneous() => {
             tuple_array.sort_by(|a, b| match (a.1, b.1) {
                 (RadonTypes::Integer(a), RadonTypes::Integer(b)) => a.cmp(b),
                 _ => unreachable!(),
-- 
2.43.0


From 0f1dc33b4079ac544bc9797a22bf3a3cc7c7e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 22/42] fix: errors inside of revealed arrays and maps make the
 reveal malformed instead of the tally panic

---
 rad/src/types/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..5c71404 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -140,6 +140,15 @@ impl RadonTypes {
         }
     }
 
+    /// Decodes the items of arrays and maps. Errors can be values on their own, but never items,
+    /// because there is no way to encode them there.
+    fn try_item_from_cbor_value(value: CborValue) -> Result<Self, RadError> {
+        match RadonTypes::try_from(value)? {
+            RadonTypes::RadonError(_) => Err(RadError::default()),
+            item => Ok(item),
+        }
+    }
+
     /// If this RadonTypes is a RadonError<RadError::UnhandledIntercept>, remove the message field
     /// from the `UnhandledIntercept` error. Otherwise, do nothing.
     pub fn remove_message_from_error_unhandled_intercept(&mut self) {
@@ -457,7 +466,7 @@ impl TryFrom<CborValue> for RadonTypes {
             // Arrays need to be mapped.
             CborValue::Array(x) => x
                 .into_iter()
-                .map(RadonTypes::try_from)
+                .map(RadonTypes::try_item_from_cbor_value)
                 .collect::<Result<Vec<RadonTypes>, RadError>>()
                 .map(|rt_vec| RadonTypes::Array(RadonArray::from(rt_vec))),
             // Maps are a little tougher to convert, as we need to map keys and values independently.
@@ -467,7 +476,9 @@ impl TryFrom<CborValue> for RadonTypes {
                     //  rather than ignoring non-string keys and weird values?
                     .filter_map(|(key, val)| match (key, val) {
                         (cbor::value::Key::Text(cbor::value::Text::Text(key)), val) => {
-                            RadonTypes::try_from(val).map(|val| (key.clone(), val)).ok()
+                            RadonTypes::try_item_from_cbor_value(val)
+                                .map(|val| (key.clone(), val))
+                                .ok()
                         }
                         _ => None,
                     })
-- 
2.43.0


From 69f329aa344722c4f99fdb815e9e18a942fe297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 23/42] fix: decode integers under -2^63 with their sign

---
 rad/src/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 5c71404..7aac3d7 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -449,8 +449,9 @@ impl TryFrom<CborValue> for RadonTypes {
             CborValue::I16(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I32(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I64(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
+            // CBOR encodes a negative integer `n` as `-1 - n`
             CborValue::Int(Int::Neg(x)) => {
-                Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
+                Ok(RadonTypes::Integer(RadonInteger::from(-1 - i128::from(x))))
             }
             CborValue::Int(Int::Pos(x)) => {
                 Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
-- 
2.43.0


From 346d07b1c7e1f74b527614e3920026638dd4b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:43 +0000
Subject: [PATCH 24/42] fix: malformed errors in CBOR are an error, not a panic

---
 data_structures/src/radon_error.rs | 11 +++++++----
 rad/src/types/mod.rs               | 12 ++++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/radon_error.rs b/data_structures/src/radon_error.rs
index 3e866ee..4d882e6 100644
--- a/data_structures/src/radon_error.rs
+++ b/data_structures/src/radon_error.rs
@@ -171,12 +171,15 @@ pub fn try_from_serde_cbor_value_for_cbor_value(serde_cbor_value: SerdeCborValue
     decoder.value().unwrap()
 }
 
-/// Convert CborValue into SerdeCborValue
-pub fn try_from_cbor_value_for_serde_cbor_value(cbor_value: CborValue) -> SerdeCborValue {
+/// Convert CborValue into SerdeCborValue.
+/// This fails for those values that `serde_cbor` does not support, e.g. unassigned simple values.
+pub fn try_from_cbor_value_for_serde_cbor_value(
+    cbor_value: CborValue,
+) -> Result<SerdeCborValue, anyhow::Error> {
     // FIXME(#953): impl TryFrom<CborValue> for <SerdeCborValue>
     let mut encoder = cbor::encoder::GenericEncoder::new(Cursor::new(Vec::new()));
-    encoder.value(&cbor_value).unwrap();
+    encoder.value(&cbor_value)?;
     let buffer = encoder.into_inner().into_writer().into_inner();
 
-    serde_cbor::from_slice(&buffer).unwrap()
+    Ok(serde_cbor::from_slice(&buffer)?)
 }
diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 7aac3d7..41d453a 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -131,12 +131,16 @@ impl RadonTypes {
     /// Decodes `RadonTypes::RadonError` items from `cbor::value::Value::Array` values.
     pub fn try_error_from_cbor_value(value: CborValue) -> Result<Self, RadError> {
         match try_from_cbor_value_for_serde_cbor_value(value) {
-            Value::Array(error_args) => Ok(RadonTypes::RadonError(RadError::try_from_cbor_array(
-                error_args,
-            )?)),
-            value => Err(RadError::DecodeRadonErrorNotArray {
+            Ok(Value::Array(error_args)) => Ok(RadonTypes::RadonError(
+                RadError::try_from_cbor_array(error_args)?,
+            )),
+            Ok(value) => Err(RadError::DecodeRadonErrorNotArray {
                 actual_type: format!("{value:?}"),
             }),
+            Err(_) => Err(RadError::Decode {
+                from: "cbor::value::Value",
+                to: "RadonError",
+            }),
         }
     }
 
-- 
2.43.0


From f789459f8f218ebc623845fd9d247052eff5ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:32 +0000
Subject: [PATCH 25/42] fix: errors with arguments beyond the limits of the
 decoder fail to encode instead of panicking

---
 data_structures/src/radon_error.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data_structures/src/radon_error.rs b/data_structures/src/radon_error.rs
index 4d882e6..c0d932a 100644
--- a/data_structures/src/radon_error.rs
+++ b/data_structures/src/radon_error.rs
@@ -124,7 +124,7 @@ where
                 // FIXME(#953): remove this conversion
                 try_from_serde_cbor_value_for_cbor_value(scv)
             })
-            .collect();
+            .collect::<Result<Vec<CborValue>, anyhow::Error>>()?;
 
         Ok(CborValue::Tagged(
             Tag::of(39),
@@ -162,13 +162,17 @@ where
 }
 
 /// Convert SerdeCborValue into CborValue
-pub fn try_from_serde_cbor_value_for_cbor_value(serde_cbor_value: SerdeCborValue) -> CborValue {
+/// This fails for those values that exceed the limits of the decoder, e.g. too long or too nested.
+pub fn try_from_serde_cbor_value_for_cbor_value(
+    serde_cbor_value: SerdeCborValue,
+) -> Result<CborValue, anyhow::Error> {
     // FIXME(#953): impl TryFrom<SerdeCborValue> for <CborValue>
     let mut decoder = cbor::decoder::GenericDecoder::new(
         cbor::Config::default(),
-        std::io::Cursor::new(serde_cbor::to_vec(&serde_cbor_value).unwrap()),
+        std::io::Cursor::new(serde_cbor::to_vec(&serde_cbor_value)?),
     );
-    decoder.value().unwrap()
+
+    decoder.value().map_err(|e| anyhow::anyhow!("{e}"))
 }
 
 /// Convert CborValue into SerdeCborValue.
-- 
2.43.0


From c979f7458f7916e0494a05d599696b3896e809d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 26/42] fix: the relative fee of a stake transaction follows
 its weight and change, and a weight beyond the limit is an error

---
 data_structures/src/transaction_factory.rs | 33 ++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..2ee8b44 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -149,6 +149,27 @@ pub enum TransactionOutputs {
     ValueTransfer(Vec<ValueTransferOutput>),
 }
 
+impl TransactionOutputs {
+    /// The error for a transaction with these outputs that exceeds the weight limit
+    fn weight_limit_exceeded(&self, weight: u32, max_weight: u32) -> TransactionError {
+        match self {
+            TransactionOutputs::DataRequest((dr_output, _)) => {
+                TransactionError::DataRequestWeightLimitExceeded {
+                    weight,
+                    max_weight,
+                    dr_output: Box::new(dr_output.clone()),
+                }
+            }
+            TransactionOutputs::Stake(_) => {
+                TransactionError::StakeWeightLimitExceeded { weight, max_weight }
+            }
+            TransactionOutputs::ValueTransfer(_) => {
+                TransactionError::ValueTransferWeightLimitExceeded { weight, max_weight }
+            }
+        }
+    }
+}
+
 impl From<TransactionOutputs> for Vec<ValueTransferOutput> {
     fn from(value: TransactionOutputs) -> Self {
         match value {
@@ -295,10 +316,13 @@ pub trait OutputsCollection {
                 })
             }
             Fee::Relative(priority) => {
-                let absolute_fee = priority.into_absolute(current_weight);
+                if current_weight > max_weight {
+                    return Err(outputs.weight_limit_exceeded(current_weight, max_weight));
+                }
 
                 let max_iterations = 1 + ((max_weight - current_weight) / INPUT_SIZE);
                 for _i in 0..max_iterations {
+                    let absolute_fee = priority.into_absolute(current_weight);
                     let amount = output_value
                         .checked_add(absolute_fee.as_nanowits())
                         .ok_or(TransactionError::FeeOverflow)?;
@@ -338,6 +362,9 @@ pub trait OutputsCollection {
                         }
                     };
 
+                    if new_weight > max_weight {
+                        return Err(outputs.weight_limit_exceeded(new_weight, max_weight));
+                    }
                     if new_weight == current_weight {
                         return Ok(TransactionInfo {
                             fee: absolute_fee,
@@ -826,8 +853,10 @@ pub fn build_st(
         pkh: own_pkh,
     };
 
+    // Relative fees are estimated as if there was a change output
+    let estimated_change = Some(ValueTransferOutput::default());
     let tx_info = utxos.generic_transaction_factory(
-        TransactionOutputs::Stake((output.clone(), None)),
+        TransactionOutputs::Stake((output.clone(), estimated_change)),
         fee,
         timestamp,
         None,
-- 
2.43.0


From f282f57891de5690fcb7231a21c93af8cd117589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 27/42] fix: a stake transaction that exceeds the weight limit
 leaves its outputs available

---
 data_structures/src/transaction_factory.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index 2ee8b44..51e2d40 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -866,13 +866,6 @@ pub fn build_st(
 
     let used_pointers = tx_info.inputs.pointers.iter().cloned().map(Input::new);
 
-    // Mark UTXOs as used so we don't double spend
-    // Save the timestamp after which the transaction will be considered timed out
-    // and the output will become available for spending it again
-    if !dry_run {
-        utxos.set_used_output_pointer(used_pointers.clone(), timestamp + tx_pending_timeout);
-    }
-
     // Only use a change output if there is value inserted by inputs that is not consumed by outputs
     // or fees
     let change_value = tx_info
@@ -890,7 +883,7 @@ pub fn build_st(
         None
     };
 
-    let inputs = used_pointers.collect::<Vec<_>>();
+    let inputs = used_pointers.clone().collect::<Vec<_>>();
     let body = StakeTransactionBody::new(inputs, output, change);
 
     let txn_weight = body.weight();
@@ -901,6 +894,13 @@ pub fn build_st(
         });
     }
 
+    // Mark UTXOs as used so we don't double spend
+    // Save the timestamp after which the transaction will be considered timed out
+    // and the output will become available for spending it again
+    if !dry_run {
+        utxos.set_used_output_pointer(used_pointers, timestamp + tx_pending_timeout);
+    }
+
     Ok(body)
 }
 
-- 
2.43.0


From 2fdeba3419836f33d2db5254b93b08a4f1fa485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 28/42] fix: clear_stake_transactions and
 clear_unstake_transactions keep the books of the mempool

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index c2369f0..518b7bf 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2725,14 +2725,17 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
-        self.sorted_st_index.clear();
+        let hashes: Vec<Hash> = self.st_transactions.keys().copied().collect();
+        for hash in hashes.iter() {
+            self.st_remove_inner(hash, false);
+        }
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From 90a261ffc566678fd8a1bbcb0d8780ad3dd378c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 29/42] fix: the mempool size limit evicts the kinds of
 transactions there are instead of panicking

---
 data_structures/src/chain/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 518b7bf..ae68354 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3297,7 +3297,10 @@ impl TransactionsPool {
             #[allow(clippy::cast_precision_loss)]
             let more_vtts_than_drs =
                 self.total_vt_weight as f64 >= self.total_dr_weight as f64 * self.vt_to_dr_factor;
-            if more_vtts_than_drs {
+            // Only choose among the kinds of transactions there actually are in the pool
+            if !self.vt_transactions.is_empty()
+                && (more_vtts_than_drs || self.dr_transactions.is_empty())
+            {
                 // Remove the value transfer transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_vt_index
@@ -3308,7 +3311,7 @@ impl TransactionsPool {
                     .unwrap();
                 let tx = self.vt_remove_inner(&tx_hash, false).unwrap();
                 removed_transactions.push(Transaction::ValueTransfer(tx));
-            } else {
+            } else if !self.dr_transactions.is_empty() {
                 // Remove the data request transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_dr_index
@@ -3319,6 +3322,17 @@ impl TransactionsPool {
                     .unwrap();
                 let tx = self.dr_remove_inner(&tx_hash, false).unwrap();
                 removed_transactions.push(Transaction::DataRequest(tx));
+            } else {
+                // Only stake transactions are left, remove the one with the lowest fee/weight
+                let tx_hash = self
+                    .sorted_st_index
+                    .iter()
+                    .map(|(_fee_weight, tx_hash)| *tx_hash)
+                    .next()
+                    // There must be at least one transaction because the total weight is not zero
+                    .unwrap();
+                let tx = self.st_remove_inner(&tx_hash, false).unwrap();
+                removed_transactions.push(Transaction::Stake(tx));
             }
         }
 
-- 
2.43.0


From cfce850c109ee224caa05c5dfc439664d2478ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 30/42] fix: removing an invalid stake transaction from the
 mempool keeps the transactions that share its inputs

---
 data_structures/src/chain/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index ae68354..54fb35e 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3173,13 +3173,8 @@ impl TransactionsPool {
     /// Remove stake transactions that would result in overstaking on a validator
     pub fn remove_invalid_stake_transactions(&mut self, transactions: Vec<Hash>) {
         for st_tx_hash in transactions.iter() {
-            if let Some(st_tx) = self
-                .st_transactions
-                .get(st_tx_hash)
-                .map(|(_, st)| st.clone())
-            {
-                self.st_remove(&st_tx);
-            }
+            // These were not included in a block: the outputs they spend are still unspent
+            self.st_remove_inner(st_tx_hash, false);
         }
     }
 
-- 
2.43.0


From 088a839a4ebda2f5ad1aff5e6f4d62bac6c7f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 31/42] fix: a transaction inserted again in the mempool is not
 counted twice

---
 data_structures/src/chain/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 54fb35e..4a81924 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3357,6 +3357,15 @@ impl TransactionsPool {
     pub fn insert(&mut self, transaction: Transaction, fee: u64) -> Vec<Transaction> {
         let key = transaction.hash();
 
+        // Inserting again a transaction that is already in the pool must not count it twice
+        if self.vt_contains(&key)
+            || self.dr_contains(&key)
+            || self.st_contains(&key)
+            || self.ut_contains(&key)
+        {
+            return vec![];
+        }
+
         match transaction {
             Transaction::ValueTransfer(vt_tx) => {
                 let weight = f64::from(vt_tx.weight());
-- 
2.43.0


From d16c9510260509ecf7df0dcd2c02a2e8bfa183aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 32/42] fix: a replaced commit or reveal does not stay in the
 index of the mempool

---
 data_structures/src/chain/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 4a81924..c20f81f 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3418,10 +3418,17 @@ impl TransactionsPool {
                 let tx_hash = co_tx.hash();
 
                 self.co_hash_index.insert(tx_hash, co_tx);
-                self.co_transactions
+                let replaced = self
+                    .co_transactions
                     .entry(dr_pointer)
                     .or_default()
                     .insert(pkh, tx_hash);
+                // Do not keep the commit that has been replaced in the index
+                if let Some(old_hash) = replaced
+                    && old_hash != tx_hash
+                {
+                    self.co_hash_index.remove(&old_hash);
+                }
             }
             Transaction::Reveal(re_tx) => {
                 let dr_pointer = re_tx.body.dr_pointer;
@@ -3429,10 +3436,17 @@ impl TransactionsPool {
                 let tx_hash = re_tx.hash();
 
                 self.re_hash_index.insert(tx_hash, re_tx);
-                self.re_transactions
+                let replaced = self
+                    .re_transactions
                     .entry(dr_pointer)
                     .or_default()
                     .insert(pkh, tx_hash);
+                // Do not keep the reveal that has been replaced in the index
+                if let Some(old_hash) = replaced
+                    && old_hash != tx_hash
+                {
+                    self.re_hash_index.remove(&old_hash);
+                }
             }
             Transaction::Stake(st_tx) => {
                 let weight = f64::from(st_tx.weight());
-- 
2.43.0


From 90f8582054d902f5853940b07b3e68939622dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 33/42] fix: the mempool computes the reward collateral ratio
 with its arguments in order

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index c20f81f..a98d09a 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3389,8 +3389,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From 0457cf088072e3a81f3defcbff37328ca161e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 34/42] fix: vt_retain subtracts the weight of what it removes
 and forgets its inputs

---
 data_structures/src/chain/mod.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index a98d09a..17f64e1 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3601,22 +3601,16 @@ impl TransactionsPool {
     where
         F: FnMut(&VTTransaction) -> bool,
     {
-        let TransactionsPool {
-            ref mut vt_transactions,
-            sorted_vt_index: ref mut sorted_index,
-            ref mut total_vt_weight,
-            ..
-        } = *self;
-
-        vt_transactions.retain(|hash, (weight, vt_transaction)| {
-            let retain = f(vt_transaction);
-            if !retain {
-                *total_vt_weight -= 1;
-                sorted_index.remove(&(*weight, *hash));
+        let mut hashes = vec![];
+        for (hash, (_, vt_transaction)) in self.vt_transactions.iter() {
+            if !f(vt_transaction) {
+                hashes.push(*hash);
             }
+        }
 
-            retain
-        });
+        for hash in hashes.iter() {
+            self.vt_remove_inner(hash, false);
+        }
     }
 
     /// Get transaction by hash
-- 
2.43.0


From 7c92b3865e6af02d777e399cd6a648064aaef808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 35/42] fix: commits that are not returned by remove_commits do
 not block the ones of other requests

---
 data_structures/src/chain/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 17f64e1..ac1d048 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3070,6 +3070,8 @@ impl TransactionsPool {
                         let n_commits = dr_output.witnesses as usize;
 
                         if commits.len() >= n_commits {
+                            // The inputs spent by the commits for this data request
+                            let mut dr_spent_inputs = HashSet::<Input>::new();
                             let filtered_commits: Vec<CommitTransaction> = commits
                                 .drain()
                                 .filter_map(|(_h, c)| {
@@ -3079,6 +3081,7 @@ impl TransactionsPool {
                                         for input in commit_tx.body.collateral.iter() {
                                             // Check that no Input from this or any other commitment is being spent twice
                                             if spent_inputs.contains(input)
+                                                || dr_spent_inputs.contains(input)
                                                 || current_spent_inputs.contains(input)
                                             {
                                                 valid = false;
@@ -3088,9 +3091,9 @@ impl TransactionsPool {
                                             }
                                         }
                                         // Only mark the inputs of this commitment as used if all of them
-                                        // are valid and they will be returned by this function
+                                        // are valid
                                         if valid {
-                                            spent_inputs.extend(current_spent_inputs);
+                                            dr_spent_inputs.extend(current_spent_inputs);
                                             Some(commit_tx)
                                         } else {
                                             None
@@ -3102,6 +3105,9 @@ impl TransactionsPool {
 
                             // Check once again that after filtering invalid commitments, we still have as many as requested
                             if filtered_commits.len() == n_commits {
+                                // These commits will be returned by this function, so no other
+                                // commit can spend the same inputs
+                                spent_inputs.extend(dr_spent_inputs);
                                 commits_vec.extend(filtered_commits);
                                 total_fee += dr_output.commit_and_reveal_fee * n_commits as u64;
                                 dr_pointer_vec.push(*dr_pointer);
-- 
2.43.0


From abebd17beb90fb1d887a9f1e5e7df38f9b0f052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:18 +0000
Subject: [PATCH 36/42] fix: the external share of a large mint is not
 saturated

The share of the external address of a mint was reward.saturating_mul(percentage) / 100, so rewards above u64::MAX / percentage gave it too little.
---
 data_structures/src/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/transaction.rs b/data_structures/src/transaction.rs
index 1a4709c..27738c5 100644
--- a/data_structures/src/transaction.rs
+++ b/data_structures/src/transaction.rs
@@ -750,7 +750,9 @@ impl MintTransaction {
         if let Some(pkh) = external_address {
             // In case of a specified PKH, the reward will be distributed between the node's PKH
             // and the external one, where the external will get `reward * external_percentage`.
-            external_reward = reward.saturating_mul(u64::from(external_percentage)) / 100;
+            external_reward =
+                u64::try_from(u128::from(reward) * u128::from(external_percentage) / 100)
+                    .unwrap_or(reward);
             reward -= external_reward;
             external_pkh = pkh;
         }
-- 
2.43.0


From 01d51d04cec14367237d3a27f48ada3a771fc2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:46 +0000
Subject: [PATCH 37/42] fix: a genesis transfer with more than 255 signatures
 crashed instead of being rejected

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 2c5deb5..6dfbf7f 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -496,7 +496,7 @@ pub fn validate_genesis_vt_transaction(
     // Genesis VTTs should have 0 signatures
     if !vt_tx.signatures.is_empty() {
         return Err(TransactionError::MismatchingSignaturesNumber {
-            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap(),
+            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap_or(u8::MAX),
             inputs_n: 0,
         });
     }
-- 
2.43.0


From b8431baf3e41a17fed5277acf15b4d62ba088c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:46 +0000
Subject: [PATCH 38/42] fix: the sum of a stake and what is already staked
 could overflow

---
 validations/src/validations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 6dfbf7f..84d1d30 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1430,10 +1430,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_amount = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_amount > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_amount,
                 })?;
             }
         }
-- 
2.43.0


From aa69d7d7a3f8b8ea2d0c453e74c967f87857a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:46 +0000
Subject: [PATCH 39/42] fix: the sum of value and fee of an unstake could
 overflow

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 84d1d30..8f4bbcc 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1490,7 +1490,7 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx.body.value().saturating_add(ut_tx.body.fee);
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From db47daa1f154e7fdae21fd062a68a889d29dcefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:01 +0000
Subject: [PATCH 40/42] fix: the sum of minimum stake and required collateral
 could overflow

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 8f4bbcc..44fca19 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -192,7 +192,7 @@ pub fn validate_commit_collateral(
             .map(|stake| stake.value.coins)
             .unwrap()
             .into();
-        if validator_balance < min_stake + required_collateral {
+        if validator_balance < min_stake.saturating_add(required_collateral) {
             return Err(TransactionError::CollateralBelowMinimumStake {
                 collateral: required_collateral,
                 validator: commit_pkh,
-- 
2.43.0


From a5ee58c8067368d850bad0e2a0f0559722373509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:01 +0000
Subject: [PATCH 41/42] fix: collateral created in the same block crashed the
 validation of the block

---
 validations/src/validations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 44fca19..0f81438 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -264,9 +264,10 @@ pub fn validate_commit_collateral(
         // Outputs to be spent in commitment inputs need to be older than `block_number_limit`.
         // All outputs from the genesis block are fulfill this requirement because
         // `block_number_limit` can't go lower than `0`.
+        // An output created by another transaction of this same block is as new as the block itself.
         let included_in_block_number = utxo_diff
             .included_in_block_number(input.output_pointer())
-            .unwrap();
+            .unwrap_or(block_number);
         if included_in_block_number > block_number_limit {
             return Err(TransactionError::CollateralNotMature {
                 output: *input.output_pointer(),
-- 
2.43.0


From e690cd536eb9805417eb0e3cccffbede074a58f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:53 +0000
Subject: [PATCH 42/42] fix: clearing the wallet's pending state forgot the
 outputs in use and kept the uses that were over

---
 wallet/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/model.rs b/wallet/src/model.rs
index b48e491..918f90b 100644
--- a/wallet/src/model.rs
+++ b/wallet/src/model.rs
@@ -420,7 +420,7 @@ pub fn clean_used_outputs(used_outputs: &UsedOutputs, utxo_set: &UtxoSet) -> Use
     let mut new_hm = UsedOutputs::default();
     let now = get_timestamp() as u64;
     for (o, &ts) in used_outputs.iter() {
-        if utxo_set.contains_key(o) && ts < now {
+        if utxo_set.contains_key(o) && ts > now {
             new_hm.insert(o.clone(), ts);
         }
     }
-- 
2.43.0

