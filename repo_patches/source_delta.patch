From 4eac0ff8c2391b8af23a1bd43ef42bbe2699f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 01/15] fix: reject unknown address version bytes instead of
 panicking

---
 stacks-core/src/address.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index a002cb9..07a8769 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -112,7 +112,8 @@ impl Codec for StacksAddress {
 		let mut version_buffer = [0; 1];
 		data.read_exact(&mut version_buffer)?;
 
-		let version = AddressVersion::from_repr(version_buffer[0]).unwrap();
+		let version = AddressVersion::try_from(version_buffer[0])
+			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
 		let mut hash_buffer = [0; HASH160_LENGTH];
 		data.read_exact(&mut hash_buffer)?;
-- 
2.43.0


From c117335d78bb7dd79bc887bd73ee1b7022db5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 02/15] fix: reject c32 strings without a decodable version
 instead of panicking

---
 stacks-core/src/c32.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index 3309db4..f8fed2e 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -198,14 +198,16 @@ pub fn version_check_decode(
 ) -> Result<(AddressVersion, Vec<u8>), C32Error> {
 	let input = input.as_ref();
 
-	if !input.is_ascii() {
+	if !input.is_ascii() || input.is_empty() {
 		return Err(C32Error::InvalidC32);
 	}
 
 	let (encoded_version_bytes, encoded_data_bytes) = input.split_at(1);
 
 	let decoded_version_bytes = decode(encoded_version_bytes)?;
-	let decoded_version_byte = *decoded_version_bytes.first().unwrap();
+	let decoded_version_byte = *decoded_version_bytes
+		.first()
+		.ok_or(C32Error::InvalidC32)?;
 	let decoded_data_bytes = decode(encoded_data_bytes)?;
 
 	if decoded_data_bytes.len() < 4 {
-- 
2.43.0


From d00b5ba0795a0ffd8821ecd0ba1f5bdc81c05308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 03/15] fix: complete the commit reveal deposit data
 serialization

---
 sbtc-core/src/operations/commit_reveal/deposit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index 20a7f62..fc38f66 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -23,9 +23,7 @@ impl Codec for DepositData {
 	fn codec_serialize<W: io::Write>(&self, dest: &mut W) -> io::Result<()> {
 		Codec::codec_serialize(&Opcode::Deposit, dest)?;
 		self.principal.codec_serialize(dest)?;
-		self.reveal_fee.codec_serialize(dest)?;
-
-		todo!()
+		self.reveal_fee.codec_serialize(dest)
 	}
 
 	fn codec_deserialize<R: io::Read>(data: &mut R) -> io::Result<Self>
-- 
2.43.0


From 014d82a6b271127b08bb7931b24b1b3270da04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 04/15] fix: widen in Uint::to_uint without slicing past the
 source

---
 stacks-core/src/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/uint.rs b/stacks-core/src/uint.rs
index 6256ad3..c53feff 100644
--- a/stacks-core/src/uint.rs
+++ b/stacks-core/src/uint.rs
@@ -224,7 +224,7 @@ impl<const N: usize> Uint<N> {
 
 		let mut dest = [0u64; M];
 
-		dest[..M].copy_from_slice(&self.0[..M]);
+		dest[..N].copy_from_slice(&self.0);
 
 		Uint(dest)
 	}
-- 
2.43.0


From dfd834e42b33afe4b00afe7c9eb4bcca0fc7b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 05/15] fix: keep every output when reordering transaction
 outputs

---
 sbtc-core/src/operations/op_return/utils.rs | 31 +++++++++++----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index b6b68d5..d391b45 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -1,6 +1,6 @@
 //! Utilities for sBTC OP_RETURN transactions
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{HashMap, VecDeque};
 
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
@@ -20,23 +20,26 @@ pub fn reorder_outputs(
 	outputs: impl IntoIterator<Item = TxOut>,
 	order: impl IntoIterator<Item = (Script, u64)>,
 ) -> Vec<TxOut> {
-	let indices: HashMap<(Script, u64), usize> = order
-		.into_iter()
-		.enumerate()
-		.map(|(idx, val)| (val, idx))
-		.collect();
+	// Equal outputs can occur more than once, every one of them has its own place
+	let mut indices: HashMap<(Script, u64), VecDeque<usize>> = HashMap::new();
+
+	for (idx, val) in order.into_iter().enumerate() {
+		indices.entry(val).or_default().push_back(idx);
+	}
 
-	let outputs_ordered: BTreeMap<usize, TxOut> = outputs
+	let mut outputs_ordered: Vec<(usize, TxOut)> = outputs
 		.into_iter()
 		.map(|txout| {
-			(
-				*indices
-					.get(&(txout.script_pubkey.clone(), txout.value))
-					.unwrap_or(&usize::MAX), // Change amount
-				txout,
-			)
+			let idx = indices
+				.get_mut(&(txout.script_pubkey.clone(), txout.value))
+				.and_then(VecDeque::pop_front)
+				.unwrap_or(usize::MAX); // Change amount
+
+			(idx, txout)
 		})
 		.collect();
 
-	outputs_ordered.into_values().collect()
+	outputs_ordered.sort_by_key(|(idx, _)| *idx);
+
+	outputs_ordered.into_iter().map(|(_, txout)| txout).collect()
 }
-- 
2.43.0


From 12e4e694a4fd0dc46bbf6737c658f87715ab77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 06/15] fix: do not recognise sBTC operations of another
 network

---
 sbtc-core/src/operations/op_return/deposit.rs            | 4 ++++
 sbtc-core/src/operations/op_return/withdrawal_request.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sbtc-core/src/operations/op_return/deposit.rs b/sbtc-core/src/operations/op_return/deposit.rs
index 7c5781f..5aafe55 100644
--- a/sbtc-core/src/operations/op_return/deposit.rs
+++ b/sbtc-core/src/operations/op_return/deposit.rs
@@ -147,6 +147,10 @@ impl Deposit {
 		let deposit_data = DepositOutputData::codec_deserialize(&mut data)
 			.map_err(|_| DepositParseError::NotSbtcOp)?;
 
+		if magic_bytes(deposit_data.network) != magic_bytes(network) {
+			return Err(DepositParseError::NotSbtcOp);
+		}
+
 		let amount_output = output_iter
 			.next()
 			.ok_or(DepositParseError::InvalidOutputs)?;
diff --git a/sbtc-core/src/operations/op_return/withdrawal_request.rs b/sbtc-core/src/operations/op_return/withdrawal_request.rs
index 2abf998..fce733b 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_request.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_request.rs
@@ -124,6 +124,10 @@ pub fn try_parse_withdrawal_request(
 		WithdrawalRequestDataOutputData::codec_deserialize(&mut data)
 			.map_err(|_| SBTCError::NotSBTCOperation)?;
 
+	if magic_bytes(withdrawal_data.network()) != magic_bytes(network) {
+		return Err(SBTCError::NotSBTCOperation);
+	}
+
 	let recipient_pubkey_output =
 		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;
 
-- 
2.43.0


From 6642d93b76d22076fe859648852e7da512c0fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 07/15] fix: publish the non debug Bitcoin contract on testnet

---
 romeo/asset-contract/deployments/default.testnet-plan.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/romeo/asset-contract/deployments/default.testnet-plan.yaml b/romeo/asset-contract/deployments/default.testnet-plan.yaml
index 316d7e7..0e1661e 100644
--- a/romeo/asset-contract/deployments/default.testnet-plan.yaml
+++ b/romeo/asset-contract/deployments/default.testnet-plan.yaml
@@ -12,7 +12,7 @@ plan:
             contract-name: clarity-bitcoin-mini
             expected-sender: ST1PQHQKV0RJXZFY1DGX8MNSNYVE3VGZJSRTPGZGM
             cost: 54380
-            path: contracts/clarity-bitcoin-mini.clar
+            path: contracts/clarity-bitcoin-mini-deploy.clar
             anchor-block-only: true
             clarity-version: 2
         - contract-publish:
-- 
2.43.0


From 5a27bacbe80d1d35d5fbb800ab8806f8b327ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 08/15] fix: poll the public key setup transaction again after
 a restart

---
 romeo/src/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index c8e0701..478948c 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -76,8 +76,17 @@ impl State {
 			}
 			State::ContractPublicKeySetup {
 				stacks_block_height,
+				public_key_setup,
 				..
 			} => {
+				if let TransactionRequest::Acknowledged {
+					has_pending_task,
+					..
+				} = public_key_setup
+				{
+					*has_pending_task = false;
+				}
+
 				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
 			}
 			State::Initialized {
-- 
2.43.0


From 962d10c29ee05b3739c6858f725eea27f1648880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 09/15] fix: do not abort on a status update while another
 request is unacknowledged

---
 romeo/src/state.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 478948c..8074b43 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -323,12 +323,9 @@ impl State {
 							has_pending_task,
 						} = req
 						else {
-							if config.strict {
-								panic!("Got an {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-							} else {
-								debug!("Ignoring {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-								return false;
-							}
+							// Does not have a transaction ID yet, so the
+							// update is about another request
+							return false;
 						};
 
 						if txid != *current_txid {
@@ -397,12 +394,9 @@ impl State {
 					has_pending_task,
 				} = req
 				else {
-					if config.strict {
-						panic!("Got an {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-					} else {
-						debug!("Ignoring {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-						return false;
-					};
+					// Does not have a transaction ID yet, so the update is
+					// about another request
+					return false;
 				};
 
 				if txid != *current_txid {
-- 
2.43.0


From 38da67c4fe41d45ec8c355672f57772283fb6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 10/15] fix: do not abort on a status update shared by failed
 broadcasts

---
 romeo/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 8074b43..e42743c 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -355,7 +355,9 @@ impl State {
 		};
 
 		if let Some(statuses_updated) = statuses_updated {
-			if statuses_updated != 1 {
+			// Requests that failed to broadcast share the placeholder
+			// transaction ID, so an update may concern more than one of them
+			if statuses_updated == 0 {
 				panic!(
 					"Unexpected number of Stacks statuses updated: {}",
 					statuses_updated
-- 
2.43.0


From af16f22e45d493a747683ca3c89cb6623d642aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:50 +0000
Subject: [PATCH 11/15] fix: refuse contract names whose encoding is cut short

---
 stacks-core/src/contract_name.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 5326262..088a14c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -2,7 +2,7 @@
 use std::{
 	borrow::Borrow,
 	fmt::{Display, Formatter},
-	io::{self, Read},
+	io,
 	ops::Deref,
 };
 
@@ -83,9 +83,8 @@ impl Codec for ContractName {
 		data.read_exact(&mut length_buffer)?;
 		let contract_name_length = length_buffer[0] as usize;
 
-		let mut name_buffer = Vec::with_capacity(contract_name_length);
-		data.take(contract_name_length as u64)
-			.read_to_end(&mut name_buffer)?;
+		let mut name_buffer = vec![0u8; contract_name_length];
+		data.read_exact(&mut name_buffer)?;
 
 		let contract_name_string = String::from_utf8(name_buffer)
 			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
-- 
2.43.0


From 5bd24216796a479db81d5d1b36f6101e51e267d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 12/15] fix: report a full destination as an error when writing
 an address

A writer that accepts no more bytes made the writing of an address panic.
---
 stacks-core/src/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index 07a8769..f8731d1 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -104,7 +104,7 @@ impl StacksAddress {
 
 impl Codec for StacksAddress {
 	fn codec_serialize<W: Write>(&self, dest: &mut W) -> io::Result<()> {
-		assert_eq!(dest.write(&[self.version() as u8])?, 1);
+		dest.write_all(&[self.version() as u8])?;
 		dest.write_all(self.hash().as_ref())
 	}
 
-- 
2.43.0


From 7e7c9ee92f0ed4919b75674bc57a0d99829034a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 13/15] fix: use the chain id of the configured Stacks network

---
 romeo/src/stacks_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index a0820be..f8c5d71 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -10,7 +10,7 @@ use blockstack_lib::{
 		TransactionPostConditionMode,
 	},
 	codec::StacksMessageCodec,
-	core::CHAIN_ID_TESTNET,
+	core::{CHAIN_ID_MAINNET, CHAIN_ID_TESTNET},
 	types::chainstate::StacksPrivateKey,
 	vm::{
 		types::{QualifiedContractIdentifier, StandardPrincipalData},
@@ -22,7 +22,7 @@ use rand::{distributions::Alphanumeric, thread_rng, Rng};
 use reqwest::{Request, RequestBuilder, Response, StatusCode};
 use serde::de::DeserializeOwned;
 use serde_json::Value;
-use stacks_core::{codec::Codec, uint::Uint256};
+use stacks_core::{codec::Codec, uint::Uint256, Network as StacksNetwork};
 use tokio::{
 	sync::{Mutex, MutexGuard},
 	time::sleep,
@@ -139,7 +139,10 @@ impl StacksClient {
 
 		tx.anchor_mode = TransactionAnchorMode::Any;
 		tx.post_condition_mode = TransactionPostConditionMode::Allow;
-		tx.chain_id = CHAIN_ID_TESTNET;
+		tx.chain_id = match self.config.stacks_network {
+			StacksNetwork::Mainnet => CHAIN_ID_MAINNET,
+			StacksNetwork::Testnet => CHAIN_ID_TESTNET,
+		};
 
 		let mut signer = StacksTransactionSigner::new(&tx);
 
-- 
2.43.0


From c0a5c76ed91e936ef852e12c706a19d6274fff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 14/15] fix: report a Bitcoin transaction rejected only when
 the node does not know it

A transaction mined between the two requests was reported as rejected,
and one that both requests saw ended the task with a panic. A request
that failed counted as an unknown transaction.
---
 romeo/src/bitcoin_client.rs | 48 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index f5bc13b..e58832b 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -24,6 +24,9 @@ use crate::{config::Config, event::TransactionStatus};
 
 const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 
+// RPC_INVALID_ADDRESS_OR_KEY, the answer for a transaction that is not known
+const TRANSACTION_NOT_FOUND: i32 = -5;
+
 /// Bitcoin RPC client
 #[derive(Clone)]
 pub struct Client {
@@ -109,26 +112,28 @@ impl Client {
 		&self,
 		txid: Txid,
 	) -> anyhow::Result<TransactionStatus> {
-		let is_confirmed = self
-			.execute(move |client| client.get_raw_transaction_info(&txid, None))
-			.await?
-			.ok()
-			.and_then(|tx| tx.confirmations)
-			.map(|confirmations| confirmations > 0)
-			.unwrap_or_default();
-
-		let in_mempool = self
-			.execute(move |client| client.get_mempool_entry(&txid))
-			.await?
-			.is_ok();
+		// The mempool is asked first: a transaction that is mined in between
+		// is then seen as confirmed rather than missed by both requests.
+		let in_mempool = found(
+			self.execute(move |client| client.get_mempool_entry(&txid))
+				.await?,
+		)?
+		.is_some();
+
+		let is_confirmed = found(
+			self.execute(move |client| {
+				client.get_raw_transaction_info(&txid, None)
+			})
+			.await?,
+		)?
+		.and_then(|tx| tx.confirmations)
+		.map(|confirmations| confirmations > 0)
+		.unwrap_or_default();
 
 		let res = match (is_confirmed, in_mempool) {
-			(true, false) => TransactionStatus::Confirmed,
+			(true, _) => TransactionStatus::Confirmed,
 			(false, true) => TransactionStatus::Broadcasted,
 			(false, false) => TransactionStatus::Rejected,
-			(true, true) => {
-				panic!("Transaction cannot be both confirmed and pending")
-			}
 		};
 
 		tracing::debug!("BTC TX {} IS {:?}", txid, res);
@@ -241,6 +246,17 @@ impl Client {
 	}
 }
 
+/// Tells a transaction the node does not know from a request that failed
+fn found<T>(result: bitcoincore_rpc::Result<T>) -> anyhow::Result<Option<T>> {
+	match result {
+		Ok(value) => Ok(Some(value)),
+		Err(bitcoincore_rpc::Error::JsonRpc(
+			bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+		)) if err.code == TRANSACTION_NOT_FOUND => Ok(None),
+		Err(err) => Err(err.into()),
+	}
+}
+
 #[cfg(test)]
 // test that wallet returns correct address
 mod tests {
-- 
2.43.0


From 9ca7dd594010209cd7d773ce0f8989255f0b1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 15/15] fix: cut an incomplete last event off the log when the
 relayer starts

A crash while an event was recorded left an incomplete last line, on which
every later start panicked.
---
 romeo/src/system.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index 30d27b2..b91eb7d 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -107,14 +107,27 @@ impl Storage {
 			.await
 			.unwrap();
 
-		let mut r = BufReader::new(&mut file).lines();
+		let mut r = BufReader::new(&mut file);
+		let mut line = Vec::new();
+		let mut complete = 0;
+
+		while r.read_until(b'\n', &mut line).await.unwrap() > 0 {
+			// A crash while an event was recorded leaves an incomplete last
+			// line. That event was not applied, and is cut off.
+			if line.last() != Some(&b'\n') {
+				break;
+			}
 
-		while let Some(line) = r.next_line().await.unwrap() {
-			let event: Event = serde_json::from_str(&line).unwrap();
+			let event: Event = serde_json::from_slice(&line).unwrap();
 
 			state.update(event, config);
+
+			complete += line.len() as u64;
+			line.clear();
 		}
 
+		file.set_len(complete).await.unwrap();
+
 		(Self(BufWriter::new(file)), state)
 	}
 
-- 
2.43.0

