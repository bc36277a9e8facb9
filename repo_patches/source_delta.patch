From 67db2b04d2759ec2690723d5cb361ca3c8b03054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 01/26] fix: announce an unfreeze as chain_unfrozen, not
 chain_frozen

---
 contracts/connection-router/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/connection-router/src/contract/execute.rs b/contracts/connection-router/src/contract/execute.rs
index 25745f5..812b31b 100644
--- a/contracts/connection-router/src/contract/execute.rs
+++ b/contracts/connection-router/src/contract/execute.rs
@@ -6,7 +6,9 @@ use itertools::Itertools;
 
 use axelar_wasm_std::flagset::FlagSet;
 
-use crate::events::{ChainFrozen, ChainRegistered, GatewayInfo, GatewayUpgraded, MessageRouted};
+use crate::events::{
+    ChainFrozen, ChainRegistered, ChainUnfrozen, GatewayInfo, GatewayUpgraded, MessageRouted,
+};
 use crate::msg::ExecuteMsg;
 use crate::state::{
     chain_endpoints, ChainEndpoint, ChainName, Gateway, GatewayDirection, Message, Store, CONFIG,
@@ -100,7 +102,7 @@ pub fn unfreeze_chain(
             Ok(chain)
         }
     })?;
-    Ok(Response::new().add_event(ChainFrozen { name: chain }.into()))
+    Ok(Response::new().add_event(ChainUnfrozen { name: chain }.into()))
 }
 
 pub fn require_admin(deps: &DepsMut, info: MessageInfo) -> Result<(), ContractError> {
-- 
2.43.0


From fb58e5c4f31d54449f95fd462e8da0d145d93384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 02/26] fix: non-empty integers and timestamps refuse zero when
 deserialised

---
 packages/axelar-wasm-std/src/nonempty/timestamp.rs | 1 +
 packages/axelar-wasm-std/src/nonempty/uint.rs      | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/packages/axelar-wasm-std/src/nonempty/timestamp.rs b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
index 2501f8c..b984685 100644
--- a/packages/axelar-wasm-std/src/nonempty/timestamp.rs
+++ b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
@@ -2,6 +2,7 @@ use crate::nonempty::Error;
 use cosmwasm_schema::cw_serde;
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Timestamp")]
 pub struct Timestamp(cosmwasm_std::Timestamp);
 
 impl TryFrom<cosmwasm_std::Timestamp> for Timestamp {
diff --git a/packages/axelar-wasm-std/src/nonempty/uint.rs b/packages/axelar-wasm-std/src/nonempty/uint.rs
index 862c782..07320e0 100644
--- a/packages/axelar-wasm-std/src/nonempty/uint.rs
+++ b/packages/axelar-wasm-std/src/nonempty/uint.rs
@@ -49,6 +49,8 @@ impl fmt::Display for Uint64 {
 
 // TODO: consider using macro for these types
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint256")]
+#[serde(into = "cosmwasm_std::Uint256")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint256(cosmwasm_std::Uint256);
 
@@ -89,6 +91,8 @@ impl AsRef<cosmwasm_std::Uint256> for Uint256 {
 }
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint128")]
+#[serde(into = "cosmwasm_std::Uint128")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint128(cosmwasm_std::Uint128);
 
-- 
2.43.0


From 16337dcb5f1974141c9700302daff19d6faea8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 03/26] fix: look up the queried worker under the queried
 service

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..07775b4 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -337,7 +337,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From 327ff6fdfd666b9f3a15faf64749f33df249786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 04/26] fix: refuse bonds that carry coins other than the bond
 denomination

---
 contracts/service-registry/src/contract.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 07775b4..2bb8177 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -205,14 +205,11 @@ pub mod execute {
             .may_load(deps.storage, &service_name)?
             .ok_or(ContractError::ServiceNotFound)?;
 
-        let bond = if !info.funds.is_empty() {
-            info.funds
-                .iter()
-                .find(|coin| coin.denom == service.bond_denom)
-                .ok_or(ContractError::WrongDenom)?
-                .amount
-        } else {
-            Uint128::zero() // sender can rebond currently unbonding funds by just sending no new funds
+        let bond = match info.funds.as_slice() {
+            [] => Uint128::zero(), // sender can rebond currently unbonding funds by just sending no new funds
+            [coin] if coin.denom == service.bond_denom => coin.amount,
+            // any other coins would not be accounted for, so they could never be claimed back
+            _ => return Err(ContractError::WrongDenom),
         };
 
         WORKERS.update(
-- 
2.43.0


From effae507c32b929f2937877d617a75c1e794bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 05/26] fix: a new worker cannot bond a zero amount

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 2bb8177..5e6a79f 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -223,7 +223,7 @@ pub mod execute {
                     }),
                     None => Ok(Worker {
                         address: info.sender,
-                        bonding_state: BondingState::Bonded { amount: bond },
+                        bonding_state: BondingState::Unbonded.add_bond(bond)?,
                         authorization_state: AuthorizationState::NotAuthorized,
                         service_name,
                     }),
-- 
2.43.0


From 39583f3ea6100dc08a51130e6bc3c6357b96383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 06/26] fix: aggregate verifier understands the voting
 verifier's replies and query answers

---
 contracts/aggregate-verifier/src/contract.rs | 21 ++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..b9f6b99 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -77,11 +77,14 @@ pub fn reply(
 ) -> Result<Response, axelar_wasm_std::ContractError> {
     match parse_reply_execute_data(reply) {
         Ok(MsgExecuteContractResponse { data: Some(data) }) => {
-            // check format of data
-            let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            // check format of data, the voting verifier wraps the statuses in its response type
+            let statuses: Vec<(CrossChainId, bool)> =
+                from_binary::<voting_msg::VerifyMessagesResponse>(&data)
+                    .map(|response| response.verification_statuses)
+                    .or_else(|_| from_binary(&data))?;
 
-            // only one verifier, so just return the response as is
-            Ok(Response::new().set_data(data))
+            // only one verifier, so just return the statuses as is
+            Ok(Response::new().set_data(to_binary(&statuses)?))
         }
         Ok(MsgExecuteContractResponse { data: None }) => {
             Err(ContractError::InvalidVerifierReply("no data".to_string()))
@@ -99,10 +102,12 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let statuses: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+            to_binary(&statuses)
         }
     }
 }
-- 
2.43.0


From feb86ca5225445f27e8eed78b0abf0ba1f0fc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 07/26] fix: distribute_rewards processes no epoch for a limit
 of zero and accepts any limit

---
 contracts/rewards/src/contract/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..f130191 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -130,11 +130,11 @@ where
             .map_or(0, |last_processed| last_processed + 1);
 
         let to = std::cmp::min(
-            (from + epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
+            from.saturating_add(epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
             cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),
         );
 
-        if to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
+        if epoch_process_limit == 0 || to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
             return Err(ContractError::NoRewardsToDistribute.into());
         }
 
-- 
2.43.0


From e69e6791525f5634ed017f4f8b1ab4142787947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 08/26] fix: make signatures recoverable whichever s they were
 submitted with

---
 contracts/multisig/src/key.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/multisig/src/key.rs b/contracts/multisig/src/key.rs
index ab3b145..fcaba5d 100644
--- a/contracts/multisig/src/key.rs
+++ b/contracts/multisig/src/key.rs
@@ -39,6 +39,8 @@ impl NonRecoverable {
                 reason: err.to_string(),
             }
         })?;
+        // signatures are accepted in either form, but only the low-s form can be recovered
+        let sig = sig.normalize_s().unwrap_or(sig);
 
         let recovery_byte = k256::ecdsa::VerifyingKey::from_sec1_bytes(pub_key.as_ref())
             .and_then(|k| k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&k, msg, &sig))
-- 
2.43.0


From d96f80c4f4fa49d9f71e165d7a6bcf01c61cbef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 09/26] fix: batch ids do not depend on how message ids are
 joined

---
 contracts/multisig-prover/src/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 390ec18..6470922 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -80,7 +80,14 @@ impl BatchId {
         if let Some(new_worker_set) = new_worker_set {
             message_ids.push(new_worker_set.hash().to_string())
         }
-        Keccak256::digest(message_ids.join(",")).as_slice().into()
+
+        // ids may contain any separator, so they are told apart by their lengths
+        let mut hasher = Keccak256::new();
+        for id in message_ids {
+            hasher.update((id.len() as u64).to_be_bytes());
+            hasher.update(id);
+        }
+        hasher.finalize().as_slice().into()
     }
 }
 
-- 
2.43.0


From 342aecf06dc1e066c4ab9a4df613a143b4217359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 10/26] fix: do not replace the batch of an ongoing signing
 session

---
 contracts/multisig-prover/src/execute.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..635599a 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,14 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            // never replace a batch that a signing session refers to: the same messages may have been requested in a different order
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                Some(batch) => batch,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0


From feac7e885dbd2fd77b7a4fb8150d93c0ee19aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 11/26] fix: an optional message that succeeds does not fail
 the batch

---
 contracts/batching/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/batching/src/contract.rs b/contracts/batching/src/contract.rs
index 6db8923..5480d53 100644
--- a/contracts/batching/src/contract.rs
+++ b/contracts/batching/src/contract.rs
@@ -32,7 +32,8 @@ pub fn execute(
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn reply(_: DepsMut, _: Env, msg: Reply) -> StdResult<Response> {
     let response = match msg.result {
-        SubMsgResult::Ok(res) => Response::default().add_events(res.events),
+        // the events of the message have been emitted already; they carry reserved attributes, which a contract may not emit
+        SubMsgResult::Ok(_) => Response::default(),
         SubMsgResult::Err(err) => Response::default()
             .add_event(Event::new("failed_msg").add_attribute(msg.id.to_string(), err)),
     };
-- 
2.43.0


From fc05637b320b796770b2c7ac42986ae8065cf317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 12/26] fix: hand a message repeated within one batch to nexus
 once

---
 .../nexus-gateway/src/contract/execute.rs     | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..29a2596 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -47,21 +47,16 @@ where
             return Err(report!(ContractError::Unauthorized));
         }
 
-        let msgs = msgs
-            .into_iter()
-            .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
-                Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
-                Err(err) => Some(Err(err)),
-            })
-            .collect::<Result<Vec<_>>>()?;
-
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
-
-        let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
+        let mut new_msgs: Vec<nexus::Message> = vec![];
+        for msg in msgs {
+            // mark the message right away, so that a repetition within the same batch is recognized too
+            if !self.store.is_message_routed(&msg.cc_id)? {
+                self.store.set_message_routed(&msg.cc_id)?;
+                new_msgs.push(msg.into());
+            }
+        }
 
-        Ok(Response::new().add_messages(msgs))
+        Ok(Response::new().add_messages(new_msgs))
     }
 }
 
-- 
2.43.0


From b642b2b3ec3ae32b4445ddf9a7e38230a9c38d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 13/26] fix: decode key types from the storage keys they are
 stored under

---
 contracts/multisig/src/key.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/contracts/multisig/src/key.rs b/contracts/multisig/src/key.rs
index fcaba5d..f191287 100644
--- a/contracts/multisig/src/key.rs
+++ b/contracts/multisig/src/key.rs
@@ -200,12 +200,17 @@ impl KeyDeserialize for KeyType {
     type Output = Self;
 
     fn from_vec(value: Vec<u8>) -> StdResult<Self::Output> {
-        serde_json::from_slice(value.as_slice()).map_err(|err| StdError::ParseErr {
-            target_type: "KeyType".into(),
-            msg: err.to_string(),
-            #[cfg(feature = "backtraces")]
-            backtrace: std::backtrace::Backtrace::capture(),
-        })
+        // keys hold the discriminant as a single byte
+        match value.as_slice() {
+            [b] if *b == KeyType::Ecdsa as u8 => Ok(KeyType::Ecdsa),
+            [b] if *b == KeyType::Ed25519 as u8 => Ok(KeyType::Ed25519),
+            _ => Err(StdError::ParseErr {
+                target_type: "KeyType".into(),
+                msg: format!("invalid key type: {:?}", value),
+                #[cfg(feature = "backtraces")]
+                backtrace: std::backtrace::Backtrace::capture(),
+            }),
+        }
     }
 }
 
-- 
2.43.0


From 2b9b1229f0334f3b92170cce14d114b4213dc884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 14/26] fix: decode batch ids from the storage keys they are
 stored under

---
 contracts/multisig-prover/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 6470922..90399e4 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 use axelar_wasm_std::{Participant, Snapshot};
 use connection_router::state::CrossChainId;
 use cosmwasm_schema::cw_serde;
-use cosmwasm_std::{from_binary, HexBinary, StdResult, Uint256};
+use cosmwasm_std::{HexBinary, StdResult, Uint256};
 use cw_storage_plus::{Key, KeyDeserialize, PrimaryKey};
 use multisig::{
     key::{PublicKey, Signature},
@@ -65,7 +65,7 @@ impl KeyDeserialize for BatchId {
     type Output = BatchId;
 
     fn from_vec(value: Vec<u8>) -> StdResult<Self::Output> {
-        Ok(from_binary(&value.into()).expect("violated invariant: BatchID is not deserializable"))
+        Ok(BatchId(value.into()))
     }
 }
 
-- 
2.43.0


From 21f8e521b0d264e6e2c32ca4a0a09f05a066fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 15/26] fix: refuse message ids whose event index is not in
 plain decimal form

The same source event could otherwise be verified under several message ids.
---
 contracts/voting-verifier/src/events.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/contracts/voting-verifier/src/events.rs b/contracts/voting-verifier/src/events.rs
index a65a5cb..f5fa29c 100644
--- a/contracts/voting-verifier/src/events.rs
+++ b/contracts/voting-verifier/src/events.rs
@@ -168,12 +168,17 @@ fn parse_message_id(
         return Err(ContractError::InvalidMessageID(message_id.to_string()));
     }
 
-    Ok((
-        components[0].try_into()?,
-        components[1]
-            .parse::<u64>()
-            .map_err(|_| ContractError::InvalidMessageID(message_id.to_string()))?,
-    ))
+    let index = components[1]
+        .parse::<u64>()
+        .map_err(|_| ContractError::InvalidMessageID(message_id.to_string()))?;
+
+    // Each event has exactly one id. Otherwise, respelling the index (e.g. with leading zeros or
+    // a plus sign) would allow the same event to be verified more than once, under different ids.
+    if components[1] != index.to_string() {
+        return Err(ContractError::InvalidMessageID(message_id.to_string()));
+    }
+
+    Ok((components[0].try_into()?, index))
 }
 
 pub struct Voted {
-- 
2.43.0


From 741ff87ae939306415f5250ea4f2ab0f99d3796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 16/26] fix: count confirmations of blocks near genesis without
 underflow

---
 ampd/src/evm/finalizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ampd/src/evm/finalizer.rs b/ampd/src/evm/finalizer.rs
index d10881b..d3fa7ca 100644
--- a/ampd/src/evm/finalizer.rs
+++ b/ampd/src/evm/finalizer.rs
@@ -80,7 +80,7 @@ where
             .await
             .change_context(Error::JsonRPC)?;
 
-        Ok(block_number - self.confirmation_height + 1)
+        Ok((block_number + 1).saturating_sub(self.confirmation_height))
     }
 }
 
-- 
2.43.0


From be68b2724f24d526b7ddd9e15e93753ab9aa1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 17/26] fix: vote for transactions under one spelling of their
 id only

---
 ampd/src/evm/mod.rs                        | 20 +++++++++++++++++++-
 ampd/src/handlers/evm_verify_msg.rs        |  3 ++-
 ampd/src/handlers/evm_verify_worker_set.rs |  3 ++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ampd/src/evm/mod.rs b/ampd/src/evm/mod.rs
index 3e6800a..d515f27 100644
--- a/ampd/src/evm/mod.rs
+++ b/ampd/src/evm/mod.rs
@@ -2,7 +2,10 @@ use std::fmt::Display;
 
 use enum_display_derive::Display;
 use ethers::types::U64;
-use serde::{Deserialize, Serialize};
+use serde::de::Error as DeserializeError;
+use serde::{Deserialize, Deserializer, Serialize};
+
+use crate::types::Hash;
 
 pub mod error;
 pub mod finalizer;
@@ -42,6 +45,21 @@ impl ChainName {
     }
 }
 
+/// Deserialize the ID of a transaction, which must be spelled as 0x-prefixed lower case hex. Message IDs are compared as
+/// strings, so if any other spelling was accepted the same event could be confirmed under several message IDs.
+pub fn deserialize_tx_id<'de, D>(deserializer: D) -> Result<Hash, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let tx_id = String::deserialize(deserializer)?;
+
+    tx_id
+        .parse()
+        .ok()
+        .filter(|hash: &Hash| format!("0x{:x}", hash) == tx_id)
+        .ok_or_else(|| D::Error::custom(format!("invalid transaction ID {tx_id}")))
+}
+
 #[cfg(test)]
 mod tests {
     use crate::evm;
diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index e0d6643..7c8d3f3 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -20,7 +20,7 @@ use voting_verifier::msg::ExecuteMsg;
 use crate::event_processor::EventHandler;
 use crate::evm::json_rpc::EthereumClient;
 use crate::evm::verifier::verify_message;
-use crate::evm::ChainName;
+use crate::evm::{deserialize_tx_id, ChainName};
 use crate::handlers::errors::Error;
 use crate::handlers::errors::Error::DeserializeEvent;
 use crate::queue::queued_broadcaster::BroadcasterClient;
@@ -30,6 +30,7 @@ type Result<T> = error_stack::Result<T, Error>;
 
 #[derive(Deserialize, Debug)]
 pub struct Message {
+    #[serde(deserialize_with = "deserialize_tx_id")]
     pub tx_id: Hash,
     pub event_index: u64,
     pub destination_address: String,
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 318829f..1588d71 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -18,7 +18,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::evm::verifier::verify_worker_set;
-use crate::evm::{json_rpc::EthereumClient, ChainName};
+use crate::evm::{deserialize_tx_id, json_rpc::EthereumClient, ChainName};
 use crate::handlers::errors::Error;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress, U256};
@@ -33,6 +33,7 @@ pub struct Operators {
 
 #[derive(Deserialize, Debug)]
 pub struct WorkerSetConfirmation {
+    #[serde(deserialize_with = "deserialize_tx_id")]
     pub tx_id: Hash,
     pub event_index: u64,
     pub operators: Operators,
-- 
2.43.0


From acaae12309b6d791e204ef1b8a38c9d00c2e3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 18/26] fix: ignore events of other contracts whatever their
 format

---
 ampd/src/handlers/evm_verify_msg.rs        | 12 +++++-------
 ampd/src/handlers/evm_verify_worker_set.rs | 12 +++++-------
 ampd/src/handlers/multisig.rs              | 12 +++++-------
 ampd/src/handlers/sui_verify_msg.rs        | 12 +++++-------
 ampd/src/handlers/sui_verify_worker_set.rs | 12 +++++-------
 packages/events/src/event.rs               | 13 +++++++++++++
 6 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index 7c8d3f3..a8762fb 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -42,8 +42,6 @@ pub struct Message {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-messages_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
@@ -152,8 +150,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> Result<()> {
+        // events of other contracts are not necessarily in the expected format
+        if !event.is_from_contract(self.voting_verifier.as_ref().as_ref()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_chain,
             source_gateway_address,
@@ -168,10 +170,6 @@ where
             event => event.change_context(DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if self.chain != source_chain {
             return Ok(());
         }
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 1588d71..5c5902d 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -42,8 +42,6 @@ pub struct WorkerSetConfirmation {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-worker_set_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     worker_set: WorkerSetConfirmation,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
@@ -148,8 +146,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> Result<()> {
+        // events of other contracts are not necessarily in the expected format
+        if !event.is_from_contract(self.voting_verifier.as_ref().as_ref()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_chain,
             source_gateway_address,
@@ -164,10 +166,6 @@ where
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if self.chain != source_chain {
             return Ok(());
         }
diff --git a/ampd/src/handlers/multisig.rs b/ampd/src/handlers/multisig.rs
index 8c1d469..5608921 100644
--- a/ampd/src/handlers/multisig.rs
+++ b/ampd/src/handlers/multisig.rs
@@ -27,8 +27,6 @@ use crate::types::TMAddress;
 #[derive(Debug, Deserialize)]
 #[try_from("wasm-signing_started")]
 struct SigningStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     session_id: u64,
     #[serde(deserialize_with = "deserialize_public_keys")]
     pub_keys: HashMap<TMAddress, PublicKey>,
@@ -127,8 +125,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> error_stack::Result<(), Error> {
+        // events of other contracts are not necessarily in the expected format
+        if !event.is_from_contract(self.multisig.as_ref().as_ref()) {
+            return Ok(());
+        }
+
         let SigningStartedEvent {
-            contract_address,
             session_id,
             pub_keys,
             msg,
@@ -139,10 +141,6 @@ where
             result => result.change_context(DeserializeEvent)?,
         };
 
-        if self.multisig != contract_address {
-            return Ok(());
-        }
-
         info!(
             session_id = session_id,
             msg = encode(&msg),
diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index 34ab996..34878f9 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -35,8 +35,6 @@ pub struct Message {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-messages_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     poll_id: PollId,
     source_gateway_address: SuiAddress,
     messages: Vec<Message>,
@@ -102,8 +100,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &Event) -> Result<()> {
+        // events of other contracts are not necessarily in the expected format
+        if !event.is_from_contract(self.voting_verifier.as_ref().as_ref()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_gateway_address,
             messages,
@@ -117,10 +119,6 @@ where
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if !participants.contains(&self.worker) {
             return Ok(());
         }
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 9adeed3..0deecca 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -40,8 +40,6 @@ pub struct WorkerSetConfirmation {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-worker_set_poll_started")]
 struct PollStartedEvent {
-    #[serde(rename = "_contract_address")]
-    contract_address: TMAddress,
     poll_id: PollId,
     source_gateway_address: SuiAddress,
     worker_set: WorkerSetConfirmation,
@@ -110,8 +108,12 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &Event) -> error_stack::Result<(), Error> {
+        // events of other contracts are not necessarily in the expected format
+        if !event.is_from_contract(self.voting_verifier.as_ref().as_ref()) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
-            contract_address,
             poll_id,
             source_gateway_address,
             worker_set,
@@ -125,10 +127,6 @@ where
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
-        if self.voting_verifier != contract_address {
-            return Ok(());
-        }
-
         if !participants.contains(&self.worker) {
             return Ok(());
         }
diff --git a/packages/events/src/event.rs b/packages/events/src/event.rs
index 4e8f94d..38f684b 100644
--- a/packages/events/src/event.rs
+++ b/packages/events/src/event.rs
@@ -27,6 +27,19 @@ impl Event {
     pub fn block_end(height: impl Into<block::Height>) -> Self {
         Event::BlockEnd(height.into())
     }
+
+    /// Returns true if this event was emitted by the contract with the given address
+    pub fn is_from_contract(&self, contract_address: &str) -> bool {
+        match self {
+            Event::Abci { attributes, .. } => {
+                attributes
+                    .get("_contract_address")
+                    .and_then(Value::as_str)
+                    == Some(contract_address)
+            }
+            _ => false,
+        }
+    }
 }
 
 impl TryFrom<abci::Event> for Event {
-- 
2.43.0


From bb5b2b5ba2a80c196806f74051b731e7461cc528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 19/26] fix: vote on well-formed items of a poll that has
 malformed ones

---
 ampd/src/handlers/evm_verify_msg.rs        | 16 +++++++++++-----
 ampd/src/handlers/evm_verify_worker_set.rs |  8 +++++++-
 ampd/src/handlers/mod.rs                   |  1 +
 ampd/src/handlers/polled.rs                | 20 ++++++++++++++++++++
 ampd/src/handlers/sui_verify_msg.rs        | 15 ++++++++++-----
 ampd/src/handlers/sui_verify_worker_set.rs |  8 +++++++-
 6 files changed, 56 insertions(+), 12 deletions(-)
 create mode 100644 ampd/src/handlers/polled.rs

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index a8762fb..c0f9c0a 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -23,6 +23,7 @@ use crate::evm::verifier::verify_message;
 use crate::evm::{deserialize_tx_id, ChainName};
 use crate::handlers::errors::Error;
 use crate::handlers::errors::Error::DeserializeEvent;
+use crate::handlers::polled::Polled;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress};
 
@@ -47,7 +48,7 @@ struct PollStartedEvent {
     source_gateway_address: EVMAddress,
     confirmation_height: u64,
     expires_at: u64,
-    messages: Vec<Message>,
+    messages: Vec<Polled<Message>>,
     participants: Vec<TMAddress>,
 }
 
@@ -184,7 +185,11 @@ where
             return Ok(());
         }
 
-        let tx_hashes: HashSet<_> = messages.iter().map(|message| message.tx_id).collect();
+        let tx_hashes: HashSet<_> = messages
+            .iter()
+            .filter_map(Polled::well_formed)
+            .map(|message| message.tx_id)
+            .collect();
         let finalized_tx_receipts = self
             .finalized_tx_receipts(tx_hashes, confirmation_height)
             .await?;
@@ -193,6 +198,7 @@ where
         let source_chain_str: String = source_chain.into();
         let message_ids = messages
             .iter()
+            .filter_map(Polled::well_formed)
             .map(|message| {
                 format!(
                     "0x{:x}{}{}",
@@ -212,9 +218,9 @@ where
             let votes: Vec<_> = messages
                 .iter()
                 .map(|msg| {
-                    finalized_tx_receipts
-                        .get(&msg.tx_id)
-                        .map_or(Vote::NotFound, |tx_receipt| {
+                    msg.well_formed()
+                        .and_then(|msg| Some((msg, finalized_tx_receipts.get(&msg.tx_id)?)))
+                        .map_or(Vote::NotFound, |(msg, tx_receipt)| {
                             verify_message(&source_gateway_address, tx_receipt, msg)
                         })
                 })
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 5c5902d..68b9074 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -20,6 +20,7 @@ use crate::event_processor::EventHandler;
 use crate::evm::verifier::verify_worker_set;
 use crate::evm::{deserialize_tx_id, json_rpc::EthereumClient, ChainName};
 use crate::handlers::errors::Error;
+use crate::handlers::polled::Polled;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress, U256};
 
@@ -42,7 +43,7 @@ pub struct WorkerSetConfirmation {
 #[derive(Deserialize, Debug)]
 #[try_from("wasm-worker_set_poll_started")]
 struct PollStartedEvent {
-    worker_set: WorkerSetConfirmation,
+    worker_set: Polled<WorkerSetConfirmation>,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
@@ -180,6 +181,11 @@ where
             return Ok(());
         }
 
+        let worker_set = match worker_set {
+            Polled::WellFormed(worker_set) => worker_set,
+            Polled::Malformed(_) => return self.broadcast_vote(poll_id, Vote::NotFound).await,
+        };
+
         let tx_receipt = self
             .finalized_tx_receipt(worker_set.tx_id, confirmation_height)
             .await?;
diff --git a/ampd/src/handlers/mod.rs b/ampd/src/handlers/mod.rs
index e87db65..49f7245 100644
--- a/ampd/src/handlers/mod.rs
+++ b/ampd/src/handlers/mod.rs
@@ -5,6 +5,7 @@ mod errors;
 pub mod evm_verify_msg;
 pub mod evm_verify_worker_set;
 pub mod multisig;
+mod polled;
 pub mod sui_verify_msg;
 pub mod sui_verify_worker_set;
 
diff --git a/ampd/src/handlers/polled.rs b/ampd/src/handlers/polled.rs
new file mode 100644
index 0000000..885e750
--- /dev/null
+++ b/ampd/src/handlers/polled.rs
@@ -0,0 +1,20 @@
+use serde::de::IgnoredAny;
+use serde::Deserialize;
+
+/// What a poll is about. Anyone can start a poll, so what is claimed to be found on the source chain doesn't necessarily
+/// follow the formats of that chain. Such a claim can't be true, but must not prevent voting on the poll either.
+#[derive(Deserialize, Debug)]
+#[serde(untagged)]
+pub enum Polled<T> {
+    WellFormed(T),
+    Malformed(IgnoredAny),
+}
+
+impl<T> Polled<T> {
+    pub fn well_formed(&self) -> Option<&T> {
+        match self {
+            Self::WellFormed(claim) => Some(claim),
+            Self::Malformed(_) => None,
+        }
+    }
+}
diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index 34878f9..eb1bae2 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -16,6 +16,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
+use crate::handlers::polled::Polled;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::{json_rpc::SuiClient, verifier::verify_message};
 use crate::types::{Hash, TMAddress};
@@ -37,7 +38,7 @@ pub struct Message {
 struct PollStartedEvent {
     poll_id: PollId,
     source_gateway_address: SuiAddress,
-    messages: Vec<Message>,
+    messages: Vec<Polled<Message>>,
     participants: Vec<TMAddress>,
     expires_at: u64,
 }
@@ -131,7 +132,11 @@ where
 
         // Does not assume voting verifier emits unique tx ids.
         // RPC will throw an error if the input contains any duplicate, deduplicate tx ids to avoid unnecessary failures.
-        let deduplicated_tx_ids: HashSet<_> = messages.iter().map(|msg| msg.tx_id).collect();
+        let deduplicated_tx_ids: HashSet<_> = messages
+            .iter()
+            .filter_map(Polled::well_formed)
+            .map(|msg| msg.tx_id)
+            .collect();
         let transaction_blocks = self
             .rpc_client
             .finalized_transaction_blocks(deduplicated_tx_ids)
@@ -141,9 +146,9 @@ where
         let votes = messages
             .iter()
             .map(|msg| {
-                transaction_blocks
-                    .get(&msg.tx_id)
-                    .map_or(Vote::NotFound, |tx_block| {
+                msg.well_formed()
+                    .and_then(|msg| Some((msg, transaction_blocks.get(&msg.tx_id)?)))
+                    .map_or(Vote::NotFound, |(msg, tx_block)| {
                         verify_message(&source_gateway_address, tx_block, msg)
                     })
             })
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 0deecca..ae5f0a6 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -19,6 +19,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
+use crate::handlers::polled::Polled;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::json_rpc::SuiClient;
 use crate::sui::verifier::verify_worker_set;
@@ -42,7 +43,7 @@ pub struct WorkerSetConfirmation {
 struct PollStartedEvent {
     poll_id: PollId,
     source_gateway_address: SuiAddress,
-    worker_set: WorkerSetConfirmation,
+    worker_set: Polled<WorkerSetConfirmation>,
     participants: Vec<TMAddress>,
     expires_at: u64,
 }
@@ -137,6 +138,11 @@ where
             return Ok(());
         }
 
+        let worker_set = match worker_set {
+            Polled::WellFormed(worker_set) => worker_set,
+            Polled::Malformed(_) => return self.broadcast_vote(poll_id, Vote::NotFound).await,
+        };
+
         let transaction_block = self
             .rpc_client
             .finalized_transaction_block(worker_set.tx_id)
-- 
2.43.0


From 2d91cb5d66b83297fbbb250d765fa268f4a94d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 20/26] fix: sign although keys of other workers are malformed

---
 ampd/src/handlers/multisig.rs | 54 +++++++++++++----------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/ampd/src/handlers/multisig.rs b/ampd/src/handlers/multisig.rs
index 5608921..203ea3b 100644
--- a/ampd/src/handlers/multisig.rs
+++ b/ampd/src/handlers/multisig.rs
@@ -5,10 +5,9 @@ use async_trait::async_trait;
 use cosmrs::cosmwasm::MsgExecuteContract;
 use cosmwasm_std::{HexBinary, Uint64};
 use ecdsa::VerifyingKey;
-use error_stack::ResultExt;
+use error_stack::{Report, ResultExt};
 use hex::encode;
-use serde::de::Error as DeserializeError;
-use serde::{Deserialize, Deserializer};
+use serde::Deserialize;
 use tracing::info;
 
 use events::Error::EventTypeMismatch;
@@ -28,40 +27,23 @@ use crate::types::TMAddress;
 #[try_from("wasm-signing_started")]
 struct SigningStartedEvent {
     session_id: u64,
-    #[serde(deserialize_with = "deserialize_public_keys")]
-    pub_keys: HashMap<TMAddress, PublicKey>,
+    pub_keys: HashMap<TMAddress, multisig::key::PublicKey>,
     #[serde(with = "hex")]
     msg: MessageDigest,
 }
 
-fn deserialize_public_keys<'de, D>(
-    deserializer: D,
-) -> Result<HashMap<TMAddress, PublicKey>, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let keys_by_address: HashMap<TMAddress, multisig::key::PublicKey> =
-        HashMap::deserialize(deserializer)?;
-
-    keys_by_address
-        .into_iter()
-        .map(|(address, pk)| match pk {
-            multisig::key::PublicKey::Ecdsa(hex) => Ok((
-                address,
-                VerifyingKey::from_sec1_bytes(hex.as_ref())
-                    .map_err(D::Error::custom)?
-                    .into(),
-            )),
-
-            multisig::key::PublicKey::Ed25519(hex) => {
-                let pk: cosmrs::tendermint::PublicKey =
-                    cosmrs::tendermint::crypto::ed25519::VerificationKey::try_from(hex.as_ref())
-                        .map_err(D::Error::custom)?
-                        .into();
-                Ok((address, pk.into()))
-            }
-        })
-        .collect()
+// Workers can register malformed keys, so only the key that is needed should be parsed
+fn parse_public_key(pub_key: &multisig::key::PublicKey) -> error_stack::Result<PublicKey, Error> {
+    match pub_key {
+        multisig::key::PublicKey::Ecdsa(hex) => VerifyingKey::from_sec1_bytes(hex.as_ref())
+            .map(Into::into)
+            .map_err(|err| Report::new(DeserializeEvent).attach_printable(err.to_string())),
+        multisig::key::PublicKey::Ed25519(hex) => {
+            cosmrs::tendermint::crypto::ed25519::VerificationKey::try_from(hex.as_ref())
+                .map(|key| cosmrs::tendermint::PublicKey::from(key).into())
+                .map_err(|err| Report::new(DeserializeEvent).attach_printable(err.to_string()))
+        }
+    }
 }
 
 pub struct Handler<B>
@@ -151,7 +133,11 @@ where
             Some(pub_key) => {
                 let signature = self
                     .signer
-                    .sign(self.multisig.to_string().as_str(), msg.clone(), pub_key)
+                    .sign(
+                        self.multisig.to_string().as_str(),
+                        msg.clone(),
+                        &parse_public_key(pub_key)?,
+                    )
                     .await
                     .change_context(Error::Sign)?;
 
-- 
2.43.0


From 661d4d863e5d8db374f04623bf96410e39cb9a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 21/26] fix: drop a message whose fee cannot be estimated
 instead of stopping the queue

---
 ampd/src/queue/queued_broadcaster.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ampd/src/queue/queued_broadcaster.rs b/ampd/src/queue/queued_broadcaster.rs
index 0ef5c99..0d845f6 100644
--- a/ampd/src/queue/queued_broadcaster.rs
+++ b/ampd/src/queue/queued_broadcaster.rs
@@ -7,10 +7,12 @@ use mockall::automock;
 use thiserror::Error;
 use tokio::time;
 use tokio::{select, sync::mpsc};
-use tracing::info;
+use tracing::{info, warn};
+use valuable::Valuable;
 
 use super::msg_queue::MsgQueue;
 use crate::broadcaster::Broadcaster;
+use report::LoggableError;
 
 type Result<T = ()> = error_stack::Result<T, Error>;
 
@@ -118,14 +120,26 @@ where
               msg = rx.recv() => match msg {
                 None => break,
                 Some(msg) => {
-                  let fee = broadcaster.estimate_fee(vec![msg.clone()]).await.change_context(Error::EstimateFee)?;
+                  let message_type = msg.type_url.clone();
+
+                  // a message that would fail must not take down the others
+                  let fee = match broadcaster.estimate_fee(vec![msg.clone()]).await.change_context(Error::EstimateFee) {
+                    Ok(fee) => fee,
+                    Err(err) => {
+                      warn!(
+                        err = LoggableError::from(&err).as_value(),
+                        message_type,
+                        "dropped a message whose fee could not be estimated"
+                      );
+                      continue;
+                    }
+                  };
 
                   if fee.gas_limit + queue.gas_cost() >= self.batch_gas_limit {
                     interval.reset();
                     broadcast_all(&mut queue, &mut broadcaster).await?;
                   }
 
-                  let message_type = msg.type_url.clone();
                   queue.push(msg, fee.gas_limit);
                   info!(
                     message_type,
-- 
2.43.0


From 9f62e94b1e7e5c7baab6db9c52772f8e26bab012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 22/26] fix: publish each block once although the latest height
 goes back

---
 ampd/src/event_sub.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ampd/src/event_sub.rs b/ampd/src/event_sub.rs
index 6305391..e6a720e 100644
--- a/ampd/src/event_sub.rs
+++ b/ampd/src/event_sub.rs
@@ -67,7 +67,7 @@ impl<T: TmClient + Sync> EventSub<T> {
         loop {
             select! {
                 _ = interval.tick() => {
-                    curr_block_height = self.process_blocks_from(curr_block_height).await?.increment();
+                    curr_block_height = self.process_blocks_from(curr_block_height).await?;
                 },
                 _ = self.token.cancelled() => {
                     info!("event sub exiting");
@@ -88,7 +88,9 @@ impl<T: TmClient + Sync> EventSub<T> {
         Ok(res.block.header().height)
     }
 
-    // this is extracted into a function so the block height attachment can be added no matter which call fails
+    // this is extracted into a function so the block height attachment can be added no matter which call fails.
+    // returns the height to continue from, which must not go back even when the latest height does
+    // (because another node answered that lags behind)
     async fn process_blocks_from(
         &mut self,
         from: block::Height,
@@ -101,14 +103,14 @@ impl<T: TmClient + Sync> EventSub<T> {
                 .attach_printable(format!("{{ block_height = {height} }}"))
                 .await?;
 
+            height = height.increment();
+
             if self.token.is_cancelled() {
-                return Ok(height);
+                break;
             }
-
-            height = height.increment();
         }
 
-        Ok(to)
+        Ok(height)
     }
 
     async fn process_block(&self, height: block::Height) -> Result<(), EventSubError> {
-- 
2.43.0


From fd30df565ab07091d95ee2cd843d9a8c2596bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 23/26] fix: do not skip event stream errors while waiting for
 the first block

---
 ampd/src/event_sub.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ampd/src/event_sub.rs b/ampd/src/event_sub.rs
index e6a720e..21a1a73 100644
--- a/ampd/src/event_sub.rs
+++ b/ampd/src/event_sub.rs
@@ -160,7 +160,10 @@ pub fn skip_to_block<E>(
     stream: impl Stream<Item = Result<Event, E>>,
     height: block::Height,
 ) -> impl Stream<Item = Result<Event, E>> {
-    stream.skip_while(move |event| !matches!(event, Ok(Event::BlockBegin(h)) if *h >= height))
+    // errors must not be skipped, because the first events to handle might be among the missing ones
+    stream.skip_while(
+        move |event| matches!(event, Ok(event) if !matches!(event, Event::BlockBegin(h) if *h >= height)),
+    )
 }
 
 #[derive(Error, Debug)]
-- 
2.43.0


From b16b50f0bf3681cb2b82137aff470cf1bf3cf8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 24/26] fix: only a missing state file means that there is no
 state

---
 ampd/src/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ampd/src/state.rs b/ampd/src/state.rs
index ad2e689..d855dd5 100644
--- a/ampd/src/state.rs
+++ b/ampd/src/state.rs
@@ -1,5 +1,5 @@
 use std::path::Path;
-use std::{collections::HashMap, fs};
+use std::{collections::HashMap, fs, io};
 
 use error_stack::{Result, ResultExt};
 use serde::{Deserialize, Serialize};
@@ -93,6 +93,9 @@ pub fn load(path: impl AsRef<Path>) -> Result<State, Error> {
 
     match fs::read_to_string(path) {
         Ok(state) => serde_json::from_str(&state).change_context(Error::InvalidState),
+        Err(err) if err.kind() != io::ErrorKind::NotFound => {
+            Err(err).change_context(Error::InvalidState)
+        }
         Err(_) => {
             info!("state file does not exist, starting from current blockchain state");
             Ok(State::default())
-- 
2.43.0


From 79b245b10ad22c72e73f5ef2095daa00f3614260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 25/26] fix: stop the event processor as soon as any handler
 fails

---
 ampd/src/event_processor.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ampd/src/event_processor.rs b/ampd/src/event_processor.rs
index da51e8d..d16d23d 100644
--- a/ampd/src/event_processor.rs
+++ b/ampd/src/event_processor.rs
@@ -5,7 +5,7 @@ use std::vec;
 use async_trait::async_trait;
 use error_stack::{Context, Result, ResultExt};
 use events::Event;
-use futures::{future::try_join_all, StreamExt};
+use futures::{future::try_join_all, FutureExt, StreamExt};
 use thiserror::Error;
 use tokio_stream::Stream;
 use tokio_util::sync::CancellationToken;
@@ -89,14 +89,16 @@ impl EventProcessor {
     }
 
     pub async fn run(self) -> Result<(), EventProcessorError> {
-        let handles = self.tasks.into_iter().map(tokio::spawn);
-
-        try_join_all(handles)
-            .await
-            .change_context(EventProcessorError::EventHandlerError)?
-            .into_iter()
-            .find(Result::is_err)
-            .unwrap_or(Ok(()))
+        let handles = self.tasks.into_iter().map(|task| {
+            tokio::spawn(task).map(|result| {
+                result
+                    .change_context(EventProcessorError::EventHandlerError)
+                    .and_then(|task_result| task_result)
+            })
+        });
+
+        // fails as soon as any task does, instead of continuing without it
+        try_join_all(handles).await.map(|_| ())
     }
 }
 
-- 
2.43.0


From f262f1f6e022dd6a8d180b6d0d30f39f211bfc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 26/26] fix: register the public key the multisig handler signs
 with

---
 ampd/src/commands/register_public_key.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ampd/src/commands/register_public_key.rs b/ampd/src/commands/register_public_key.rs
index e33622a..f94b1df 100644
--- a/ampd/src/commands/register_public_key.rs
+++ b/ampd/src/commands/register_public_key.rs
@@ -11,16 +11,18 @@ use report::ResultCompatExt;
 
 use crate::commands::{broadcast_tx, worker_pub_key};
 use crate::config::Config;
-use crate::types::TMAddress;
-use crate::{handlers, Error, PREFIX};
+use crate::tofnd::grpc::{MultisigClient, SharableEcdsaClient};
+use crate::types::{self, TMAddress};
+use crate::{handlers, tofnd, Error, PREFIX};
 
 pub async fn run(config: Config, state_path: &Path) -> Result<Option<String>, Error> {
     let pub_key = worker_pub_key(state_path, config.tofnd_config.clone()).await?;
 
     let multisig_address = get_multisig_address(&config)?;
+    let multisig_key = multisig_pub_key(config.tofnd_config.clone(), &multisig_address).await?;
 
     let msg = serde_json::to_vec(&ExecuteMsg::RegisterPublicKey {
-        public_key: PublicKey::try_from((KeyType::Ecdsa, pub_key.to_bytes().into()))
+        public_key: PublicKey::try_from((KeyType::Ecdsa, multisig_key.to_bytes().into()))
             .change_context(Error::Tofnd)?,
     })
     .expect("register public key msg should serialize");
@@ -42,6 +44,21 @@ pub async fn run(config: Config, state_path: &Path) -> Result<Option<String>, Er
     )))
 }
 
+// the multisig handler signs with the key stored under the address of the multisig contract, not with the account's key
+async fn multisig_pub_key(
+    config: tofnd::Config,
+    multisig_address: &TMAddress,
+) -> Result<types::PublicKey, Error> {
+    SharableEcdsaClient::new(
+        MultisigClient::connect(config.party_uid, config.url)
+            .await
+            .change_context(Error::Connection)?,
+    )
+    .keygen(multisig_address.to_string().as_str())
+    .await
+    .change_context(Error::Tofnd)
+}
+
 fn get_multisig_address(config: &Config) -> Result<TMAddress, Error> {
     config
         .handlers
-- 
2.43.0

