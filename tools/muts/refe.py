PROPS="P15 P16 P17 P18 P19 P20 P21 P22 P23 P25 P35 P36 P37 P38 P39 P40"
S="romeo/src/system.rs"
T="romeo/src/state.rs"
C="romeo/src/stacks_client.rs"
B="romeo/src/bitcoin_client.rs"
F="romeo/src/config.rs"
P="romeo/src/proof_data.rs"
MUTS=[
# 0 header by serialize
(P,[('''		let mut header = self.block_header.version.to_le_bytes().to_vec();
		header.append(&mut self.block_header.prev_blockhash.to_vec());
		header.append(&mut self.block_header.merkle_root.to_vec());
		header.append(&mut self.block_header.time.to_le_bytes().to_vec());
		header.append(&mut self.block_header.bits.to_le_bytes().to_vec());
		header.append(&mut self.block_header.nonce.to_le_bytes().to_vec());
''','''		let mut header = Vec::with_capacity(80);
		header.extend_from_slice(&self.block_header.version.to_le_bytes());
		header.extend_from_slice(&self.block_header.prev_blockhash[..]);
		header.extend_from_slice(&self.block_header.merkle_root[..]);
		header.extend_from_slice(&self.block_header.time.to_le_bytes());
		header.extend_from_slice(&self.block_header.bits.to_le_bytes());
		header.extend_from_slice(&self.block_header.nonce.to_le_bytes());
''')],0),
# 1 header helper returning concat
(P,[('''		let mut header = self.block_header.version.to_le_bytes().to_vec();
		header.append(&mut self.block_header.prev_blockhash.to_vec());
		header.append(&mut self.block_header.merkle_root.to_vec());
		header.append(&mut self.block_header.time.to_le_bytes().to_vec());
		header.append(&mut self.block_header.bits.to_le_bytes().to_vec());
		header.append(&mut self.block_header.nonce.to_le_bytes().to_vec());
''','''		let header = [
			self.block_header.version.to_le_bytes().to_vec(),
			self.block_header.prev_blockhash.to_vec(),
			self.block_header.merkle_root.to_vec(),
			self.block_header.time.to_le_bytes().to_vec(),
			self.block_header.bits.to_le_bytes().to_vec(),
			self.block_header.nonce.to_le_bytes().to_vec(),
		]
		.concat();
''')],0),
# 2 merkle path for loop
(P,[('''			merkle_path: Value::Sequence(SequenceData::List(ListData {
				data: self
					.merkle_path
					.iter()
					.map(|v| Value::buff_from(v.clone()).unwrap())
					.collect(),
''','''			merkle_path: Value::Sequence(SequenceData::List(ListData {
				data: path,
'''),('''		// use txid in big endian''','''		let mut path = vec![];

		for node in &self.merkle_path {
			path.push(Value::buff_from(node.to_vec()).unwrap());
		}

		// use txid in big endian''')],0),
# 3 txids loop
(P,[('''		let txids: Vec<BitcoinTxId> =
			block.txdata.iter().map(|tx| tx.txid()).collect();
''','''		let mut txids = Vec::new();

		for tx in block.txdata.iter() {
			txids.push(tx.txid());
		}

''')],0),
# 4 index access
(P,[('''			block.txdata.get(index).expect("Invalid tx index");''','''			&block.txdata[index];''')],0),
# 5 root hex
(P,[('''			merkle_root: hex::encode(merkle_tree.root().unwrap()),''','''			merkle_root: merkle_tree.root().map(hex::encode).unwrap(),''')],0),
# 6 chain id helper
(C,[('''		tx.chain_id = match self.config.stacks_network {
			StacksNetwork::Mainnet => CHAIN_ID_MAINNET,
			StacksNetwork::Testnet => CHAIN_ID_TESTNET,
		};
''','''		tx.chain_id = self.chain_id();
'''),('''	async fn get_nonce_info(''','''	fn chain_id(&self) -> u32 {
		if self.config.stacks_network == StacksNetwork::Mainnet {
			CHAIN_ID_MAINNET
		} else {
			CHAIN_ID_TESTNET
		}
	}

	async fn get_nonce_info(''')],0),
# 7 nonce in a variable
(C,[('''		tx.set_origin_nonce(self.get_nonce_info().await?.possible_next_nonce);
		tx.set_tx_fee(self.calculate_fee(tx.tx_len()).await?);
''','''		let nonce = self.get_nonce_info().await?.possible_next_nonce;
		let fee = self.calculate_fee(tx.tx_len()).await?;

		tx.set_origin_nonce(nonce);
		tx.set_tx_fee(fee);
''')],0),
# 8 private key helper
(C,[('''		signer
			.sign_origin(
				&StacksPrivateKey::from_slice(
					&self
						.config
						.stacks_credentials
						.private_key()
						.secret_bytes(),
				)
				.unwrap(),
			)
			.unwrap();

		tx = signer.get_tx().unwrap();

		let mut tx_bytes = vec![];
		tx.consensus_serialize(&mut tx_bytes).unwrap();
''','''		signer.sign_origin(&self.private_key()).unwrap();

		let signed_tx = signer.get_tx().unwrap();
		let tx_bytes = signed_tx.serialize_to_vec();
'''),('''	async fn get_nonce_info(''','''	fn private_key(&self) -> StacksPrivateKey {
		let key = self.config.stacks_credentials.private_key();

		StacksPrivateKey::from_slice(&key.secret_bytes()).unwrap()
	}

	async fn get_nonce_info(''')],0),
# 9 anchor order
(C,[('''		tx.anchor_mode = TransactionAnchorMode::Any;
		tx.post_condition_mode = TransactionPostConditionMode::Allow;
''','''		tx.post_condition_mode = TransactionPostConditionMode::Allow;
		tx.anchor_mode = TransactionAnchorMode::Any;
''')],0),
# 10 status straight
(C,[('''		let tx_status_str = match res {
			Ok(json) => json["tx_status"]
				.as_str()
				.map(|s| s.to_string())
				.expect("Could not get raw transaction from response"),
			// Stacks node sometimes returns 404 for pending transactions
			// :shrug:
			Err(err) if err.to_string().contains("404 Not Found") => {
				"pending".to_string()
			}
			err => panic!("Unknown transation status: {:?}", err),
		};

		Ok(match tx_status_str.as_str() {
			"pending" => TransactionStatus::Broadcasted,
			"success" => TransactionStatus::Confirmed,
			"abort_by_response" => TransactionStatus::Rejected,
			status => panic!("Unknown transation status: {}", status),
		})
''','''		let json = match res {
			Ok(json) => json,
			// Stacks node sometimes returns 404 for pending transactions
			// :shrug:
			Err(err) if err.to_string().contains("404 Not Found") => {
				return Ok(TransactionStatus::Broadcasted);
			}
			Err(err) => panic!("Unknown transation status: {:?}", err),
		};

		let status = json["tx_status"]
			.as_str()
			.expect("Could not get raw transaction from response");

		match status {
			"pending" => Ok(TransactionStatus::Broadcasted),
			"success" => Ok(TransactionStatus::Confirmed),
			"abort_by_response" => Ok(TransactionStatus::Rejected),
			status => panic!("Unknown transation status: {}", status),
		}
''')],0),
# 11 url helper
(C,[('''	fn transaction_url(&self) -> reqwest::Url {
		self.config
			.stacks_node_url
			.join("/v2/transactions")
			.unwrap()
	}
''','''	fn node_url(&self, path: &str) -> reqwest::Url {
		self.config.stacks_node_url.join(path).unwrap()
	}

	fn transaction_url(&self) -> reqwest::Url {
		self.node_url("/v2/transactions")
	}
'''),('''		self.config
			.stacks_node_url
			.join(&format!("/extended/v1/tx/{}/raw", txid))
			.unwrap()
''','''		self.node_url(&format!("/extended/v1/tx/{}/raw", txid))
'''),('''		self.config
			.stacks_node_url
			.join(&format!("/extended/v1/block/by_height/{}", height))
			.unwrap()
''','''		self.node_url(&format!("/extended/v1/block/by_height/{}", height))
'''),('''		self.config.stacks_node_url.join(&path).unwrap()
''','''		self.node_url(&path)
''')],0),
# 12 block polling: match
(C,[('''			if let Ok(inner_response) = maybe_response {
				if inner_response["txs"].is_array() {
					trace!("Found Stacks block of height {}", block_height);
					break inner_response;
				}
			}
''','''			match maybe_response {
				Ok(response) if response["txs"].is_array() => {
					trace!("Found Stacks block of height {}", block_height);
					break response;
				}
				_ => (),
			}
''')],0),
# 13 tx ids, one loop
(C,[('''		let tx_ids: Vec<StacksTxId> = res["txs"]
			.as_array()
			.unwrap_or_else(|| {
				panic!("Could not get txs from response: {:?}", res)
			})
			.iter()
			.map(|id| {
				let mut id = id.as_str().unwrap().to_string();
				id = id.replace("0x", "");

				StacksTxId::from_hex(&id).unwrap()
			})
			.collect();

		let mut txs = Vec::with_capacity(tx_ids.len());

		for id in tx_ids {
			let tx = self.get_transaction(id).await?;
			txs.push(tx);
		}
''','''		let tx_ids = res["txs"].as_array().unwrap_or_else(|| {
			panic!("Could not get txs from response: {:?}", res)
		});

		let mut txs = vec![];

		for id in tx_ids {
			let id = id.as_str().unwrap().replace("0x", "");
			let id = StacksTxId::from_hex(&id).unwrap();

			txs.push(self.get_transaction(id).await?);
		}
''')],0),
# 14 helper for a get request
(C,[('''				self.http_client
					.get(self.contract_info_url(id.to_string()))
					.build()
					.unwrap()
''','''				self.get_request(self.contract_info_url(id.to_string()))
'''),('''				self.http_client
					.get(self.block_by_height_url(block_height))
					.build()
					.unwrap()
''','''				self.get_request(self.block_by_height_url(block_height))
'''),('''	async fn get_nonce_info(''','''	fn get_request(&self, url: reqwest::Url) -> Request {
		self.http_client.get(url).build().unwrap()
	}

	async fn get_nonce_info(''')],0),
# 15 fee
(C,[('''		Ok(fee_rate * tx_len * 100)''','''		let fee = fee_rate * tx_len * 100;

		Ok(fee)''')],0),
# 16 retry table
(C,[('''					match status_code_number {
						429 | 522 => {
							backoff::Error::transient(anyhow::anyhow!(err))
						}
						_ => backoff::Error::permanent(anyhow::anyhow!(err)),
					}
''','''					if status_code_number == 429 || status_code_number == 522 {
						backoff::Error::transient(anyhow::anyhow!(err))
					} else {
						backoff::Error::permanent(anyhow::anyhow!(err))
					}
''')],0),
# 17 contract height
(C,[('''		if let Some(err) = res["error"].as_str() {
			Err(Error::msg(err.to_string()))
		} else {
			Ok(res["block_height"].as_u64().unwrap() as u32)
		}
''','''		if let Some(err) = res["error"].as_str() {
			return Err(anyhow!("{}", err));
		}

		let height = res["block_height"].as_u64().unwrap();

		Ok(height as u32)
''')],0),
# 18 block hash
(C,[('''		let hash_bytes = hex::decode(hash_str.replace("0x", ""))?;

		Ok(Uint256::deserialize(&mut Cursor::new(hash_bytes))?)
''','''		let hash_hex = hash_str.replace("0x", "");
		let hash_bytes = hex::decode(hash_hex)?;
		let mut cursor = Cursor::new(hash_bytes);
		let hash = Uint256::deserialize(&mut cursor)?;

		Ok(hash)
''')],0),
# 19 add key with if let
(C,[('''		match &self.config.hiro_api_key {
			Some(api_key) => {
				RequestBuilder::from_parts(self.http_client.clone(), request)
					.header("x-hiro-api-key", api_key)
					.build()
					.unwrap()
			}
			None => request,
		}
''','''		let Some(api_key) = self.config.hiro_api_key.as_ref() else {
			return request;
		};

		RequestBuilder::from_parts(self.http_client.clone(), request)
			.header("x-hiro-api-key", api_key)
			.build()
			.unwrap()
''')],0),
# 20 get_block status by if-let chains
(B,[('''				Err(bitcoincore_rpc::Error::JsonRpc(
					bitcoincore_rpc::jsonrpc::Error::Rpc(err),
				)) => {
					if err.code == -8 {
						trace!("Bitcoin block not found, retrying...");
					} else {
						Err(anyhow!(
							"Error fetching Bitcoin block: {:?}",
							err
						))?;
					}
				}
''','''				Err(bitcoincore_rpc::Error::JsonRpc(
					bitcoincore_rpc::jsonrpc::Error::Rpc(err),
				)) if err.code == -8 => {
					trace!("Bitcoin block not found, retrying...");
				}
''')],0),
# 21 credentials helper for the rpc
(B,[('''		let username = url.username().to_string();
		let password = url.password().unwrap_or_default().to_string();
''','''		let username = url.username().to_owned();
		let password = match url.password() {
			Some(password) => password.to_owned(),
			None => String::new(),
		};
''')],0),
# 22 wallet network moved, sign closure extracted
(B,[('''				let mut tx_builder = wallet.build_tx();

				for (script, amount) in outputs.clone() {
					tx_builder.add_recipient(script, amount);
				}

				let (mut partial_tx, _) = tx_builder.finish()?;

				partial_tx.unsigned_tx.output =
					reorder_outputs(partial_tx.unsigned_tx.output, outputs);

				wallet.sign(&mut partial_tx, SignOptions::default())?;

				Ok(partial_tx.extract_tx())
''','''				sign_payout(&wallet, outputs)
'''),('''/// Tells a transaction the node''','''fn sign_payout(
	wallet: &Wallet<MemoryDatabase>,
	outputs: Vec<(Script, u64)>,
) -> anyhow::Result<Transaction> {
	let mut builder = wallet.build_tx();

	for (script, amount) in &outputs {
		builder.add_recipient(script.clone(), *amount);
	}

	let (mut psbt, _details) = builder.finish()?;
	let wallet_outputs = std::mem::take(&mut psbt.unsigned_tx.output);

	psbt.unsigned_tx.output = reorder_outputs(wallet_outputs, outputs);
	wallet.sign(&mut psbt, SignOptions::default())?;

	Ok(psbt.extract_tx())
}

/// Tells a transaction the node''')],0),
# 23 config: from the file step by step
(F,[('''		let stacks_credentials =
			wallet.credentials(config_file.stacks_network, 0)?;
		let bitcoin_credentials =
			wallet.bitcoin_credentials(config_file.bitcoin_network, 0)?;
		let hiro_api_key = config_file.hiro_api_key;
''','''		let bitcoin_credentials =
			wallet.bitcoin_credentials(config_file.bitcoin_network, 0)?;
		let stacks_credentials =
			wallet.credentials(config_file.stacks_network, 0)?;
'''),('''			hiro_api_key,
''','''			hiro_api_key: config_file.hiro_api_key,
''')],0),
# 24 parse::<Url>
(F,[('''Url::parse(&config_file.bitcoin_node_url)?''','''config_file.bitcoin_node_url.parse()?''')],0),
# 25 state update status
(T,[('''				if *current_status == TransactionStatus::Confirmed {
					let bitcoin_block_height = *bitcoin_block_height;
''','''				if let TransactionStatus::Confirmed = current_status {
					let bitcoin_block_height = *bitcoin_block_height;
''')],0),
# 26 reqs as Vec loop in get_stacks_status_checks
(T,[('''		reqs.into_iter()
			.filter_map(|req| match req {
				TransactionRequest::Acknowledged {
					txid,
					status: TransactionStatus::Broadcasted,
					has_pending_task,
				} if !*has_pending_task => {
					*has_pending_task = true;
					Some(Task::CheckStacksTransactionStatus(*txid))
				}
				_ => None,
			})
			.collect()
''','''		let mut tasks = vec![];

		for req in reqs {
			if let TransactionRequest::Acknowledged {
				txid,
				status: TransactionStatus::Broadcasted,
				has_pending_task,
			} = req
			{
				if *has_pending_task {
					continue;
				}

				*has_pending_task = true;
				tasks.push(Task::CheckStacksTransactionStatus(*txid));
			}
		}

		tasks
''')],0),
# 27 method on request for update, shared
(T,[('''			.map(|req| {
				let TransactionRequest::Acknowledged {
					txid: current_txid,
					status: current_status,
					has_pending_task,
				} = req
				else {
					// Does not have a transaction ID yet, so the update is
					// about another request
					return false;
				};

				if txid != *current_txid {
					return false;
				}

			    if !*has_pending_task {
					if config.strict {
			        panic!(
			            "Got an {:?} status update for a Bitcoin transaction that doesn't have a pending task: {}", status, txid
			        );
				} else {
					debug!(
			            "Ignoring {:?} status update for a Bitcoin transaction that doesn't have a pending task: {}", status, txid
			        );
				}
			    }

			    *current_status = status.clone();
			    *has_pending_task = false;

			    true
			}).map(|updated| updated as usize).sum();
''','''			.map(|req| req.update_status(&txid, &status, config.strict) as usize)
			.sum();
'''),('''/// A parsed deposit
''','''impl<T: PartialEq + std::fmt::Display> TransactionRequest<T> {
	fn update_status(
		&mut self,
		txid: &T,
		new_status: &TransactionStatus,
		strict: bool,
	) -> bool {
		match self {
			Self::Acknowledged {
				txid: current_txid,
				status,
				has_pending_task,
			} if current_txid == txid => {
				if !*has_pending_task {
					assert!(!strict, "Got an {:?} status update for a transaction that doesn't have a pending task: {}", new_status, txid);
					debug!("Ignoring {:?} for {}", new_status, txid);
				}

				*status = new_status.clone();
				*has_pending_task = false;

				true
			}
			_ => false,
		}
	}
}

/// A parsed deposit
''')],0),
# 28 withdrawal info new fn
(T,[('''		deposit.mint = Some(TransactionRequest::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task: false,
		});
''','''		deposit.mint = Some(TransactionRequest::broadcasted(txid));
'''),('''/// A parsed deposit
''','''impl<T> TransactionRequest<T> {
	fn broadcasted(txid: T) -> Self {
		Self::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task: false,
		}
	}
}

/// A parsed deposit
''')],0),
# 29 find by loop
(T,[('''		let withdrawal = withdrawals
			.iter_mut()
			.find(|withdrawal| withdrawal.info == withdrawal_info)
			.expect("Could not find a withdrawal for the burn");

		if config.strict {
			assert!(
				matches!(withdrawal.burn, Some(TransactionRequest::Created)),
				"Newly burned withdrawal already has burn acknowledged"
			);
		}
''','''		let Some(withdrawal) = withdrawals
			.iter_mut()
			.find(|withdrawal| withdrawal_info == withdrawal.info)
		else {
			panic!("Could not find a withdrawal for the burn");
		};

		let is_created =
			matches!(withdrawal.burn, Some(TransactionRequest::Created));

		if config.strict && !is_created {
			panic!("Newly burned withdrawal already has burn acknowledged");
		}
''')],0),
]
