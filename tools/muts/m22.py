PROPS="P22 P23 P25"
S="romeo/src/system.rs"
C="romeo/src/stacks_client.rs"
D="romeo/src/proof_data.rs"
MINT="Value::UInt(deposit_info.amount as u128),\n		Value::from(deposit_info.recipient.clone()),\n		proof_data.txid,\n		proof_data.block_height,"
MUTS=[
# 0 arguments swapped
(S,[("		proof_data.merkle_path,\n		proof_data.tx_index,","		proof_data.tx_index,\n		proof_data.merkle_path,")],1),
# 1 height/index swap (both uint)
(S,[("		proof_data.block_height,\n		proof_data.merkle_path,\n		proof_data.tx_index,","		proof_data.tx_index,\n		proof_data.merkle_path,\n		proof_data.block_height,")],1),
# 2 burn calls mint
(S,[('ClarityName::from("burn")','ClarityName::from("mint")')],1),
# 3 version fixed
(S,[("	let tx_version = match config.stacks_network {\n		StacksNetwork::Mainnet => TransactionVersion::Mainnet,","	let tx_version = match config.stacks_network {\n		StacksNetwork::Mainnet => TransactionVersion::Testnet,")],1),
# 4 txid not reversed
(D,[("		txid.reverse();\n","")],1),
# 5 header order
(D,[("		header.append(&mut self.block_header.time.to_le_bytes().to_vec());\n		header.append(&mut self.block_header.bits.to_le_bytes().to_vec());","		header.append(&mut self.block_header.bits.to_le_bytes().to_vec());\n		header.append(&mut self.block_header.time.to_le_bytes().to_vec());")],1),
# 6 big endian
(D,[("self.block_header.nonce.to_le_bytes()","self.block_header.nonce.to_be_bytes()")],1),
# 7 path reversed
(D,[("merkle_path.into_iter().map(|h| h.to_vec()).collect()","merkle_path.into_iter().rev().map(|h| h.to_vec()).collect()")],1),
# 8 amount truncated
(S,[("Value::UInt(deposit_info.amount as u128)","Value::UInt(deposit_info.amount as u32 as u128)")],1),
# 9 coinbase left out of the leaves
(D,[("block.txdata.iter().map(|tx| tx.txid()).collect();","block.txdata.iter().skip(1).map(|tx| tx.txid()).collect();")],1),
# 10 rposition
(S,[("		.position(|tx| tx.txid() == txid)","		.position(|tx| tx.wtxid().to_vec() == txid.to_vec())")],1),
# 11 index of proof off by one
(D,[("			.proof(index)\n","			.proof(index + 1)\n")],1),
# 12 key of wrong kind
(S,[("			.public_key_p2tr()","			.public_key_p2wpkh()")],1),
# 13 wrong block
(S,[("		withdrawal_info.block_height,\n		withdrawal_info.txid,\n","		withdrawal_info.block_height + 1,\n		withdrawal_info.txid,\n")],1),
# 14 burn for recipient amount with source of deposit: contract name constant
(S,[("			contract_name: config.contract_name.clone(),\n			function_name: ClarityName::from(\"mint\"),","			contract_name: \"asset\".into(),\n			function_name: ClarityName::from(\"mint\"),")],1),
# 15 nonce: last executed
(C,[("self.get_nonce_info().await?.possible_next_nonce","self.get_nonce_info().await?.possible_next_nonce + 1")],1),
# 16 fee before nonce removed
(C,[("		tx.set_tx_fee(self.calculate_fee(tx.tx_len()).await?);\n","		tx.set_tx_fee(self.calculate_fee(1).await?);\n")],1),
# 17 anchor after signing
(C,[("		tx.anchor_mode = TransactionAnchorMode::Any;\n",""),("		tx = signer.get_tx().unwrap();\n","		tx = signer.get_tx().unwrap();\n		tx.anchor_mode = TransactionAnchorMode::Any;\n")],1),
# 18 fee set after signing
(C,[("		tx.set_tx_fee(self.calculate_fee(tx.tx_len()).await?);\n",""),("		tx = signer.get_tx().unwrap();\n","		tx = signer.get_tx().unwrap();\n		tx.set_tx_fee(self.calculate_fee(tx.tx_len()).await?);\n")],1),
# 19 deny post conditions
(C,[("TransactionPostConditionMode::Allow","TransactionPostConditionMode::Deny")],1),
# 20 chain always mainnet
(C,[("StacksNetwork::Testnet => CHAIN_ID_TESTNET","StacksNetwork::Testnet => CHAIN_ID_MAINNET")],1),
# 21 unsigned tx posted
(C,[("		tx = signer.get_tx().unwrap();\n","		let _ = signer.get_tx().unwrap();\n")],1),
# 22 post twice
(C,[("		Ok(res)\n	}\n\n	/// Get transaction status","		let _ = self.http_client.post(self.transaction_url()).body(tx_bytes.clone()).send().await;\n		Ok(res)\n	}\n\n	/// Get transaction status")],1),
# 23 (dropped)
(S,[("StacksNetwork::Mainnet => TransactionVersion::Mainnet,","StacksNetwork::Mainnet => TransactionVersion::Testnet,")],1),
# 24 client per task
(S,[("	let stacks_client: LockedClient =\n		StacksClient::new(config.clone(), reqwest::Client::new()).into();","	let stacks_client: LockedClient =\n		StacksClient::new(config.clone(), reqwest::Client::new()).into();\n	let other: LockedClient =\n		StacksClient::new(config.clone(), reqwest::Client::new()).into();"),("			stacks_client.clone(),\n			task,\n			tx.clone(),\n		);\n	}\n\n","			other.clone(),\n			task,\n			tx.clone(),\n		);\n	}\n\n")],1),
# 25 nonce of another address path
(C,[('"/extended/v1/address/{}/nonces"','"/extended/v1/address/{}/nonces?unanchored=true"')],1),
# 26 withdraw amount from wrong: height as amount
(S,[("Value::UInt(withdrawal_info.amount as u128)","Value::UInt(withdrawal_info.block_height as u128)")],1),
# 27 spawn a mint outside lock with drop
(S,[("	let txid = stacks_client\n		.lock()\n		.await\n		.sign_and_broadcast(tx)\n		.await\n		.expect(\"Unable","	let mut client = stacks_client.lock().await;\n	let txid = client\n		.sign_and_broadcast(tx)\n		.await\n		.expect(\"Unable")],0),
# 28 helper for the version, the address
(S,[("	let tx_version = match config.stacks_network {\n		StacksNetwork::Mainnet => TransactionVersion::Mainnet,\n		StacksNetwork::Testnet => TransactionVersion::Testnet,\n	};\n\n	let tx = StacksTransaction::new(tx_version, tx_auth, tx_payload);\n\n	match stacks_client","	let tx = StacksTransaction::new(version_of(config), tx_auth, tx_payload);\n\n	match stacks_client"),("async fn burn_asset(","fn version_of(config: &Config) -> TransactionVersion {\n	if matches!(config.stacks_network, StacksNetwork::Mainnet) {\n		TransactionVersion::Mainnet\n	} else {\n		TransactionVersion::Testnet\n	}\n}\n\nasync fn burn_asset(")],0),
# 29 chain id first
(C,[("		tx.anchor_mode = TransactionAnchorMode::Any;\n		tx.post_condition_mode = TransactionPostConditionMode::Allow;\n",""),("		tx.set_origin_nonce(","		tx.anchor_mode = TransactionAnchorMode::Any;\n		tx.post_condition_mode = TransactionPostConditionMode::Allow;\n		tx.set_origin_nonce(")],0),
# 30 header by chained iterators
(D,[("		let mut header = self.block_header.version.to_le_bytes().to_vec();\n		header.append(&mut self.block_header.prev_blockhash.to_vec());\n		header.append(&mut self.block_header.merkle_root.to_vec());","		let mut header = Vec::with_capacity(80);\n		header.extend_from_slice(&self.block_header.version.to_le_bytes());\n		header.extend_from_slice(&self.block_header.prev_blockhash);\n		header.extend(self.block_header.merkle_root.to_vec());")],0),
# 31 position by enumerate/find
(S,[("	let index = block\n		.txdata\n		.iter()\n		.position(|tx| tx.txid() == txid)\n","	let index = block\n		.txdata\n		.iter()\n		.enumerate()\n		.find(|(_, tx)| tx.txid() == txid)\n		.map(|(i, _)| i)\n")],0),
# 32 txid rev collect
(D,[("		let mut txid = self.reversed_txid.to_vec();\n		txid.reverse();","		let txid: Vec<u8> =\n			self.reversed_txid.to_vec().into_iter().rev().collect();")],0),
# 33 args built by helper
(S,[("		Value::UInt(deposit_info.amount as u128),\n		Value::from(deposit_info.recipient.clone()),\n		proof_data.txid,\n		proof_data.block_height,\n		proof_data.merkle_path,\n		proof_data.tx_index,\n		proof_data.block_header,\n	];","		Value::UInt(deposit_info.amount.into()),\n		Value::from(deposit_info.recipient.clone()),\n	]\n	.into_iter()\n	.chain([\n		proof_data.txid,\n		proof_data.block_height,\n		proof_data.merkle_path,\n		proof_data.tx_index,\n		proof_data.block_header,\n	])\n	.collect::<Vec<_>>();")],0),
]
