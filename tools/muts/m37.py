PROPS="P37 P38 P40 P25"
S="romeo/src/system.rs"
C="romeo/src/stacks_client.rs"
B="romeo/src/bitcoin_client.rs"
F="romeo/src/config.rs"
POOL='''		let in_mempool = found(
			self.execute(move |client| client.get_mempool_entry(&txid))
				.await?,
		)?
		.is_some();

'''
INFO='''		let is_confirmed = found(
			self.execute(move |client| {
				client.get_raw_transaction_info(&txid, None)
			})
			.await?,
		)?
		.and_then(|tx| tx.confirmations)
		.map(|confirmations| confirmations > 0)
		.unwrap_or_default();

'''
MUTS=[
# 0 order of the questions
(B,[(POOL,""),(INFO,INFO+POOL)],1),
# 1 failures swallowed (both)
(B,[("		Err(err) => Err(err.into()),\n	}\n}","		Err(_) => Ok(None),\n	}\n}")],1),
# 2 confirmations threshold
(B,[("confirmations > 0","confirmations > 1")],1),
# 3 rejected when waiting
(B,[("(false, true) => TransactionStatus::Broadcasted","(false, true) => TransactionStatus::Rejected")],1),
# 4 other code
(B,[("TRANSACTION_NOT_FOUND: i32 = -5","TRANSACTION_NOT_FOUND: i32 = -8")],1),
# 5 gone counts as pending
(B,[("(false, false) => TransactionStatus::Rejected","(false, false) => TransactionStatus::Broadcasted")],1),
# 6 confirmed if known at all
(B,[("		.and_then(|tx| tx.confirmations)\n		.map(|confirmations| confirmations > 0)\n		.unwrap_or_default();","		.is_some();")],1),
# 7 stacks: anything else pending
(C,[('status => panic!("Unknown transation status: {}", status),','_ => TransactionStatus::Broadcasted,')],1),
# 8 stacks: abort counted as success
(C,[('"success" => TransactionStatus::Confirmed,\n			"abort_by_response" => TransactionStatus::Rejected,','"success" | "abort_by_response" => TransactionStatus::Confirmed,\n			"dropped_problematic" => TransactionStatus::Rejected,')],1),
# 9 stacks: every error is pending
(C,[('Err(err) if err.to_string().contains("404 Not Found") => {','Err(_) => {')],1),
# 10 stacks: microblock canonical field
(C,[('json["tx_status"]','json["status"]')],1),
# 11 outputs not reordered
(B,[("				partial_tx.unsigned_tx.output =\n					reorder_outputs(partial_tx.unsigned_tx.output, outputs);\n\n",""),],1),
# 12 reordered after signing
(B,[("				partial_tx.unsigned_tx.output =\n					reorder_outputs(partial_tx.unsigned_tx.output, outputs);\n\n				wallet.sign(&mut partial_tx, SignOptions::default())?;\n","				wallet.sign(&mut partial_tx, SignOptions::default())?;\n				partial_tx.unsigned_tx.output =\n					reorder_outputs(partial_tx.unsigned_tx.output, outputs);\n")],1),
# 13 no sync
(B,[("				wallet.sync(&blockchain, SyncOptions::default())?;\n","				let _ = (&blockchain, SyncOptions::default());\n")],1),
# 14 sync error ignored
(B,[("wallet.sync(&blockchain, SyncOptions::default())?;","wallet.sync(&blockchain, SyncOptions::default()).ok();")],1),
# 15 recipient from wallet
(S,[("		&withdrawal_info.recipient,\n","		&config.sbtc_wallet_address(),\n")],1),
# 16 tip at the height of the next block
(S,[(".get_block_hash_from_bitcoin_height(withdrawal_info.block_height)",".get_block_hash_from_bitcoin_height(withdrawal_info.block_height + 1)")],1),
# 17 sign error ignored
(B,[("wallet.sign(&mut partial_tx, SignOptions::default())?;","let _ = wallet.sign(&mut partial_tx, SignOptions::default());")],1),
# 18 broadcast retried
(B,[("		let txid: Txid = self\n			.execute(move |client| client.send_raw_transaction(&tx))\n			.await??;\n","		let again = tx.clone();\n		let _ = self.execute(move |client| client.send_raw_transaction(&again)).await;\n		let txid: Txid = self\n			.execute(move |client| client.send_raw_transaction(&tx))\n			.await??;\n")],1),
# 19 drain
(B,[("				for (script, amount) in outputs.clone() {","				tx_builder.drain_wallet();\n				for (script, amount) in outputs.clone() {")],1),
# 20 rounding amounts
(B,[("tx_builder.add_recipient(script, amount);","tx_builder.add_recipient(script, amount.max(546));")],1),
# 21 change elsewhere
(B,[("			Some(P2TR(p2tr_private_key)),","			Some(P2TR(PrivateKey::new(config.bitcoin_credentials.private_key_p2wpkh(), network))),")],1),
# 22 wallet of the other key
(B,[(".bitcoin_credentials.wif_p2tr()",".bitcoin_credentials.wif_p2wpkh()")],1),
# 23 account 1
(F,[("wallet.bitcoin_credentials(config_file.bitcoin_network, 0)?","wallet.bitcoin_credentials(config_file.bitcoin_network, 1)?")],1),
# 24 swapped urls
(F,[("Url::parse(&config_file.electrum_node_url)?","Url::parse(&config_file.bitcoin_node_url)?")],1),
# 25 strict by default
(F,[("config_file.strict.unwrap_or_default()","config_file.strict.unwrap_or(true)")],1),
# 26 directory relative to cwd
(F,[("			normalize(config_root.clone(), config_file.state_directory);","			normalize(std::env::current_dir().unwrap(), config_file.state_directory);")],1),
# 27 address
(F,[("self.bitcoin_credentials.address_p2tr()","self.bitcoin_credentials.address_p2wpkh()")],1),
# 28 merge networks
(F,[("wallet.credentials(config_file.stacks_network, 0)?","wallet.credentials(config_file.bitcoin_network.into(), 0)?")],1),
# 29 hash of the parent
(C,[('["hash"]','["parent_block_hash"]')],1),
# ---- must stay quiet
# 30 if chains instead of a match
(B,[("		let res = match (is_confirmed, in_mempool) {\n			(true, _) => TransactionStatus::Confirmed,\n			(false, true) => TransactionStatus::Broadcasted,\n			(false, false) => TransactionStatus::Rejected,\n		};","		let res = if is_confirmed {\n			TransactionStatus::Confirmed\n		} else if in_mempool {\n			TransactionStatus::Broadcasted\n		} else {\n			TransactionStatus::Rejected\n		};")],0),
# 31 early return
(B,[("		let res = match (is_confirmed, in_mempool) {","		if is_confirmed {\n			return Ok(TransactionStatus::Confirmed);\n		}\n		let res = match (is_confirmed, in_mempool) {")],0),
# 32 is_some_and style
(B,[("		.and_then(|tx| tx.confirmations)\n		.map(|confirmations| confirmations > 0)\n		.unwrap_or_default();","		.map_or(false, |tx| tx.confirmations.unwrap_or(0) >= 1);")],0),
# 33 status helper
(C,[('		Ok(match tx_status_str.as_str() {\n			"pending" => TransactionStatus::Broadcasted,\n			"success" => TransactionStatus::Confirmed,\n			"abort_by_response" => TransactionStatus::Rejected,\n			status => panic!("Unknown transation status: {}", status),\n		})','		let s = tx_status_str.as_str();\n		if s == "success" {\n			return Ok(TransactionStatus::Confirmed);\n		}\n		if s == "pending" {\n			Ok(TransactionStatus::Broadcasted)\n		} else if s == "abort_by_response" {\n			Ok(TransactionStatus::Rejected)\n		} else {\n			panic!("Unknown transation status: {}", s)\n		}')],0),
# 34 outputs by index / iter
(B,[("				for (script, amount) in outputs.clone() {\n					tx_builder.add_recipient(script, amount);\n				}","				outputs.iter().for_each(|(script, amount)| {\n					tx_builder.add_recipient(script.clone(), *amount);\n				});")],0),
# 35 take outputs
(B,[("				partial_tx.unsigned_tx.output =\n					reorder_outputs(partial_tx.unsigned_tx.output, outputs);\n","				let unordered = std::mem::take(&mut partial_tx.unsigned_tx.output);\n				partial_tx.unsigned_tx.output = reorder_outputs(unordered, outputs);\n")],0),
# 36 helper for the proposal
(B,[("				wallet.sign(&mut partial_tx, SignOptions::default())?;\n","				let finalized = wallet.sign(&mut partial_tx, SignOptions::default())?;\n				trace!(\"finalized: {}\", finalized);\n")],0),
# 37 config with locals
(F,[("		let wallet = Wallet::new(&config_file.mnemonic)?;\n","		let ConfigFile { mnemonic, .. } = config_file.clone();\n		let wallet = Wallet::new(mnemonic)?;\n")],0),
# 38 normalize inline
(F,[("	if path.as_ref().is_relative() {\n		root_dir.join(path)\n	} else {\n		path.as_ref().into()\n	}","	let path = path.as_ref();\n	if path.is_absolute() {\n		return path.to_path_buf();\n	}\n	root_dir.join(path)")],0),
# 39 strict == Some(true)
(F,[("config_file.strict.unwrap_or_default()","matches!(config_file.strict, Some(true))")],0),
# 40 wallet key straight
(B,[("		let p2tr_private_key = PrivateKey::from_wif(\n			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)?;","		let wif = config.bitcoin_credentials.wif_p2tr().to_string();\n		let p2tr_private_key = wif.parse::<PrivateKey>()?;")],0),
]
MUTS+=[
# id of the transaction before its outputs are reordered
(B,[("			spawn_blocking::<_, anyhow::Result<Transaction>>(move || {","			spawn_blocking::<_, anyhow::Result<(Txid, Transaction)>>(move || {"),("		let tx: Transaction =\n","		let (txid, tx): (Txid, Transaction) =\n"),("				partial_tx.unsigned_tx.output","				let txid = partial_tx.unsigned_tx.txid();\n				partial_tx.unsigned_tx.output"),("				Ok(partial_tx.extract_tx())","				Ok((txid, partial_tx.extract_tx()))"),("		let txid: Txid = self\n","		self\n"),],1),
# own id though the broadcast failed
(B,[("		let txid: Txid = self\n			.execute(move |client| client.send_raw_transaction(&tx))\n			.await??;\n","		let txid = tx.txid();\n		let _ = self\n			.execute(move |client| client.send_raw_transaction(&tx))\n			.await?;\n")],1),
]
