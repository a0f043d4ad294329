From a1d04155dcd2add9151b8cf4061d20af02ad400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 01/16] fix: reject aggregated votes whose weight is not above
 the threshold

---
 src/state/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..4693523 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -5,6 +5,7 @@ use creep::Context;
 use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
+use crate::error::ConsensusError;
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
@@ -98,7 +99,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "vote weight is not above threshold".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From 34a50edd89e3d1524d001030cced5dea7361b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 02/16] fix: check that the lock of a proposal justifies the
 proposed block

---
 src/state/process.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..8963c60 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -620,6 +620,18 @@ where
         // SMR. Otherwise, touch off SMR directly.
         let lock_round = if let Some(polc) = proposal.lock.clone() {
             log::debug!("Overlord: state receive a signed proposal with a lock");
+            let qc = &polc.lock_votes;
+            if !qc.is_prevote_qc()
+                || qc.height != proposal_height
+                || qc.round != polc.lock_round
+                || polc.lock_round >= proposal_round
+                || qc.block_hash.is_empty()
+                || qc.block_hash != proposal.block_hash
+            {
+                return Err(ConsensusError::ProposalErr(
+                    "Proposal is inconsistent with its lock".to_string(),
+                ));
+            }
             Some(polc.lock_round)
         } else {
             None
-- 
2.43.0


From 187de4ec075549696e32f042aed930d40a61312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 03/16] fix: ignore chokes signed by an address outside the
 authority list

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 8963c60..2e416a7 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1214,6 +1214,8 @@ where
             hex_encode(signed_choke.address.clone())
         );
 
+        self.verify_address(&signed_choke.address)?;
+
         if choke_round > self.round {
             match choke.from {
                 UpdateFrom::PrevoteQC(qc) => {
-- 
2.43.0


From 2ae0caa98911f38b03a5352ab87d5491c5a8e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 04/16] fix: verify the quorum certificate carried by a choke
 of a higher round

---
 src/state/process.rs | 51 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 2e416a7..61e3eee 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1218,13 +1218,24 @@ where
 
         if choke_round > self.round {
             match choke.from {
-                UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                // The QC carried by a choke comes from the network, verify it before handling it.
+                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                    if qc.height == self.height {
+                        parallel_verify(
+                            ctx.clone(),
+                            OverlordMsg::AggregatedVote(qc),
+                            Arc::clone(&self.util),
+                            self.authority.clone(),
+                            self.verify_sig_tx.clone(),
+                        )
+                        .await;
+                    }
+                    return Ok(());
                 }
-                UpdateFrom::PrecommitQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                UpdateFrom::ChokeQC(qc) => {
+                    self.verify_aggregated_choke(&qc)?;
+                    return self.handle_aggregated_choke(qc);
                 }
-                UpdateFrom::ChokeQC(qc) => return self.handle_aggregated_choke(qc),
             }
         }
 
@@ -1233,6 +1244,36 @@ where
         Ok(())
     }
 
+    /// Verify the height, the voters and the aggregated signature of an aggregated choke.
+    fn verify_aggregated_choke(&self, aggregated_choke: &AggregatedChoke) -> ConsensusResult<()> {
+        if aggregated_choke.height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc is not of the current height".to_string(),
+            ));
+        }
+
+        let mut voters = HashSet::new();
+        for voter in aggregated_choke.voters.iter() {
+            self.verify_address(voter)?;
+            if !voters.insert(voter) {
+                return Err(ConsensusError::BrakeErr(
+                    "choke qc has duplicate voters".to_string(),
+                ));
+            }
+        }
+
+        let hash = self
+            .util
+            .hash(Bytes::from(rlp::encode(&aggregated_choke.to_hash())));
+        self.util
+            .verify_aggregated_signature(
+                aggregated_choke.signature.clone(),
+                hash,
+                aggregated_choke.voters.clone(),
+            )
+            .map_err(|err| ConsensusError::CryptoErr(format!("verify choke qc error {:?}", err)))
+    }
+
     fn handle_aggregated_choke(
         &mut self,
         aggregated_choke: AggregatedChoke,
-- 
2.43.0


From 88dba5458fb61084878c7643f8810e5ff163b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 05/16] fix: do not put unverified future messages into the
 verified channel

---
 src/state/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 61e3eee..bdb1962 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -137,7 +137,12 @@ where
                     } else {
                         match self.height.cmp(&msg.get_height()) {
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                // Cache it now. If it waited in the channel of verified messages,
+                                // the height could be reached before it is verified.
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From f0bbcad17b511df587f89100d6299feb1eee221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 06/16] fix: handle the stop message instead of panicking

---
 src/state/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index bdb1962..a8c3b13 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -132,7 +132,7 @@ where
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
 
-                    if msg.is_rich_status() {
+                    if msg.is_rich_status() || matches!(msg, OverlordMsg::Stop) {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -201,7 +201,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !matches!(raw, OverlordMsg::Stop) {
             return Ok(());
         }
 
-- 
2.43.0


From ffd13cbca89ae9e29c1babb7e5d344d51982a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 07/16] fix: ignore SMR events of another height

---
 src/smr/smr_types.rs |  4 ++--
 src/state/process.rs | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/smr/smr_types.rs b/src/smr/smr_types.rs
index 00e8894..676e711 100644
--- a/src/smr/smr_types.rs
+++ b/src/smr/smr_types.rs
@@ -124,8 +124,8 @@ impl FromWhere {
 }
 
 /// SMR event that state and timer monitor this.
-/// **NOTICE**: The `height` field is just for the timer. Timer will take this to signal the timer
-/// height. State will ignore this field on handling event.
+/// **NOTICE**: Timer will take the `height` field to signal the timer height. State ignores the
+/// events whose height is not its own.
 #[derive(Clone, Debug, Display, PartialEq, Eq)]
 pub enum SMREvent {
     /// New round event,
diff --git a/src/state/process.rs b/src/state/process.rs
index a8c3b13..f871a16 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -265,12 +265,17 @@ where
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
         match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
             SMREvent::NewRoundInfo {
+                height,
                 round,
                 lock_round,
                 lock_proposal,
                 from_where,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_new_round(round, lock_round, lock_proposal, from_where)
                     .await
@@ -281,10 +286,15 @@ where
             }
 
             SMREvent::PrevoteVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                     .await
@@ -295,10 +305,15 @@ where
             }
 
             SMREvent::PrecommitVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                     .await
-- 
2.43.0


From cda7782895855cae93bc572e67b241c4c414794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 08/16] fix: forget block check results at a new height

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index f871a16..fc891de 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -448,6 +448,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
-- 
2.43.0


From a584830d36b423c327cd28885641ac1deec1ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 09/16] fix: return an error on decoding an unknown update
 source

---
 src/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..8143606 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from type")),
                 };
                 Ok(res)
             }
-- 
2.43.0


From 47902afdbe8a87b3bf11566f5180ca5fa0d1d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 10/16] fix: return an error on decoding an unknown WAL step

---
 src/codec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec.rs b/src/codec.rs
index 8143606..72b485f 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > u8::from(Step::Commit) {
+                    return Err(DecoderError::Custom("Invalid step"));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From 1407b9d6ed4bb0d752a19606e569208bd4c956cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 11/16] fix: sum up the weights of the authority list in u64

---
 src/state/process.rs     | 6 +++---
 src/utils/auth_manage.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index fc891de..c041c2e 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1191,11 +1191,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..bf217be 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -161,15 +161,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
+        weight_sum += u64::from(node.propose_weight);
         propose_weights.push(node.propose_weight as u64);
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height + round, &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
-- 
2.43.0


From fbadf0a743cca90e13a70e70675b237e07dac417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 12/16] fix: do not overflow in the proposer election on a huge
 height or round

---
 src/utils/auth_manage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index bf217be..6016453 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -64,7 +64,7 @@ impl AuthorityManage {
     pub fn get_proposer(&self, height: u64, round: u64) -> ConsensusResult<Address> {
         let index = if cfg!(feature = "random_leader") {
             get_random_proposer_index(
-                height + round,
+                height.wrapping_add(round),
                 &self.propose_weights,
                 self.propose_weight_sum,
             )
@@ -169,7 +169,7 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum)
+        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
@@ -180,7 +180,7 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
     let len = authority_len as u32;
     let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
+    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);
     res as usize
 }
 
-- 
2.43.0


From 27d331956c0992abae564657475d8eca9bff92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 13/16] fix: do not replace a known block by another one with
 the same hash

---
 src/state/process.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index c041c2e..4cfa4b1 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -660,6 +660,16 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
+        // The check result is kept by hash, so the hash must keep identifying the checked block.
+        if self
+            .hash_with_block
+            .get(&hash)
+            .map_or(false, |known| known != &block)
+        {
+            return Err(ConsensusError::ProposalErr(
+                "Another block with the same hash".to_string(),
+            ));
+        }
         self.hash_with_block.insert(hash.clone(), proposal.content);
         self.proposals.insert(
             ctx.clone(),
-- 
2.43.0


From de4d7a4c4c03c77d83fe1ce26819df16eb4f2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 14/16] fix: update the authority list of a new height even if
 saving wal fails

---
 src/state/process.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 4cfa4b1..d1f95d2 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -433,8 +433,6 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
-
         // Update height and authority list.
         self.height_start = Instant::now();
         let mut auth_list = status.authority_list.clone();
@@ -462,6 +460,7 @@ where
             self.re_check_qcs(qcs).await?;
         }
 
+        self.save_wal(Step::Propose, None).await?;
         self.state_machine.new_height_status(status.into())?;
         Ok(())
     }
-- 
2.43.0


From 399ea0fc41b7ef4e86a17980ef05447548e2318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 15/16] fix: do not wrap around the back-off of the timer on a
 huge round

---
 src/timer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..3ea4d75 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -141,9 +141,9 @@ impl Timer {
 
         let mut interval = self.config.get_timeout(event.clone())?;
         if !is_brake_timer {
-            let mut coef = self.round as u32;
-            if coef > MAX_TIMEOUT_COEF {
-                coef = MAX_TIMEOUT_COEF;
+            let mut coef = MAX_TIMEOUT_COEF;
+            if self.round < u64::from(MAX_TIMEOUT_COEF) {
+                coef = self.round as u32;
             }
             interval *= 2u32.pow(coef);
         }
-- 
2.43.0


From 231a0cdd0e049e36ca2e3e6910e713489453ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 16/16] fix: end the timer when the SMR is gone instead of
 spinning

---
 src/timer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index 3ea4d75..5eaed2d 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -40,9 +40,8 @@ impl Stream for Timer {
 
                 Poll::Ready(event) => {
                     if event.is_none() {
-                        return Poll::Ready(Some(ConsensusError::TimerErr(
-                            "Channel dropped".to_string(),
-                        )));
+                        // The SMR is gone, an error here would be repeated forever.
+                        return Poll::Ready(None);
                     }
 
                     let event = event.unwrap();
-- 
2.43.0

