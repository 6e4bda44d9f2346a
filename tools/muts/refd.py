PROPS="P15 P16 P17 P18 P19 P20 P21 P22 P23 P25 P35 P36 P37 P38 P40"
S="romeo/src/system.rs"
T="romeo/src/state.rs"
C="romeo/src/stacks_client.rs"
B="romeo/src/bitcoin_client.rs"
F="romeo/src/config.rs"
K="	let public_key = StacksPublicKey::from_slice(\n\t\t&config.stacks_credentials.public_key().serialize(),\n\t)\n\t.unwrap();\n\n\tlet tx_auth = TransactionAuth::Standard(\n\t\tTransactionSpendingCondition::new_singlesig_p2pkh(public_key).unwrap(),\n\t);\n"
V="	let tx_version = match config.stacks_network {\n\t\tStacksNetwork::Mainnet => TransactionVersion::Mainnet,\n\t\tStacksNetwork::Testnet => TransactionVersion::Testnet,\n\t};\n\n\tlet tx = StacksTransaction::new(tx_version, tx_auth, tx_payload);\n"
A="	let addr = StacksAddress::consensus_deserialize(&mut Cursor::new(\n\t\tconfig.stacks_credentials.address().serialize_to_vec(),\n\t))\n\t.unwrap();\n\n"
PAY=lambda f: A+"	let tx_payload =\n\t\tTransactionPayload::ContractCall(TransactionContractCall {\n\t\t\taddress: addr,\n\t\t\tcontract_name: config.contract_name.clone(),\n\t\t\tfunction_name: ClarityName::from(\""+f+"\"),\n\t\t\tfunction_args,\n\t\t});\n\n"+V
HELP='''fn contract_call(
	config: &Config,
	function: &str,
	function_args: Vec<Value>,
) -> StacksTransaction {
	let public_key = StacksPublicKey::from_slice(
		&config.stacks_credentials.public_key().serialize(),
	)
	.unwrap();

	let tx_auth = TransactionAuth::Standard(
		TransactionSpendingCondition::new_singlesig_p2pkh(public_key).unwrap(),
	);

'''+A+'''	let tx_payload =
		TransactionPayload::ContractCall(TransactionContractCall {
			address: addr,
			contract_name: config.contract_name.clone(),
			function_name: ClarityName::from(function),
			function_args,
		});

'''+V.replace("let tx = ","").replace("payload);","payload)")+'''}

async fn mint_asset('''
MINTM=open("/repo/"+S).read()
MINTM=MINTM[MINTM.index("	match stacks_client.lock().await.sign_and_broadcast(tx).await {\n		Ok(txid) => Event::MintBroadcasted"):MINTM.index("async fn burn_asset")]
MUTS=[
# 0 helper for the contract call, all three
(S,[(K,""),(PAY("set-bitcoin-wallet-public-key"),'	let tx = contract_call(config, "set-bitcoin-wallet-public-key", function_args);\n'),
    (K,""),(PAY("mint"),'	let tx = contract_call(config, "mint", function_args);\n'),
    (K,""),(PAY("burn"),'	let tx = contract_call(config, "burn", function_args);\n'),
    ("async fn mint_asset(",HELP)],0),
# 1 mint result handling by if let / early return
(S,[(MINTM,'''	let outcome = stacks_client.lock().await.sign_and_broadcast(tx).await;

	let txid = match outcome {
		Ok(txid) => txid,
		Err(err) if config.strict => {
			panic!("Unable to sign and broadcast the mint transaction: {}", err)
		}
		Err(err) => {
			debug!("Ignoring failure to sign and broadcast the mint transaction: {}", err);
			DUMMY_STACKS_ID
		}
	};

	Event::MintBroadcasted(deposit_info, txid)
}

''')],0),
# 2 proof after auth (statements reordered)
(S,[('''	let proof_data = get_tx_proof(
		&bitcoin_client,
		deposit_info.block_height,
		deposit_info.txid,
	)
	.await;

'''+K,K+'''
	let proof_data = get_tx_proof(
		&bitcoin_client,
		deposit_info.block_height,
		deposit_info.txid,
	)
	.await;
''')],0),
# 3 find the index by loop
(S,[('''	let index = block
		.txdata
		.iter()
		.position(|tx| tx.txid() == txid)
		.expect("Failed to find transaction in block");
''','''	let (index, _) = block
		.txdata
		.iter()
		.enumerate()
		.find(|(_, tx)| tx.txid() == txid)
		.expect("Failed to find transaction in block");
''')],0),
# 4 guard kept in a variable
(S,[('''	let status = client
		.lock()
		.await
		.get_transation_status(txid)
		.await
		.expect("Could not get Stacks transaction status");
''','''	let mut client = client.lock().await;
	let status = client
		.get_transation_status(txid)
		.await
		.expect("Could not get Stacks transaction status");
	drop(client);
''')],0),
# 5 one lock for both questions
(S,[('''	let block_height = client
		.lock()
		.await
		.get_contract_block_height(config.contract_name.clone())
''','''	let mut client = client.lock().await;

	let block_height = client
		.get_contract_block_height(config.contract_name.clone())
'''),('''	let bitcoin_block_height = client
		.lock()
		.await
		.get_bitcoin_block_height(block_height)''','''	let bitcoin_block_height = client
		.get_bitcoin_block_height(block_height)''')],0),
# 6 unwrap_or_else panic in place of expect
(S,[('''		.get_tx_status(txid)
		.await
		.expect("Could not get Bitcoin transaction status");''','''		.get_tx_status(txid)
		.await
		.unwrap_or_else(|err| panic!("Could not get Bitcoin transaction status: {:?}", err));''')],0),
# 7 replay with loop / match
(S,[('''		while r.read_until(b'\\n', &mut line).await.unwrap() > 0 {
''','''		loop {
			match r.read_until(b'\\n', &mut line).await.unwrap() {
				0 => break,
				_ => {}
			}
'''),('''			let event: Event = serde_json::from_slice(&line).unwrap();

			state.update(event, config);
''','''			let event = serde_json::from_slice::<Event>(&line).unwrap();
			let _ = state.update(event, config);
''')],0),
# 8 main loop as loop
(S,[('''	while let Some(event) = rx.recv().await {
		storage.record(&event).await;
''','''	loop {
		let Some(event) = rx.recv().await else {
			break;
		};

		storage.record(&event).await;
''')],0),
# 9 run_task inlined into the spawned future
(S,[('''		let event =
			run_task(&config, bitcoin_client, stacks_client, task).await;
		result.send(event).await.expect("Failed to return event");''','''		result
			.send(run_task(&config, bitcoin_client, stacks_client, task).await)
			.await
			.expect("Failed to return event");''')],0),
# 10 state: bootstrap helper
(T,[('''					.for_each(|req| {
						if let TransactionRequest::Acknowledged {
							has_pending_task,
							..
						} = req
						{
							*has_pending_task = false;
						}
					});

				withdrawals
					.iter_mut()
					.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
					.for_each(|req| {
						if let TransactionRequest::Acknowledged {
							has_pending_task,
							..
						} = req
						{
							*has_pending_task = false;
						}
					});
''','''					.for_each(TransactionRequest::forget_pending_task);

				withdrawals
					.iter_mut()
					.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
					.for_each(TransactionRequest::forget_pending_task);
'''),('''/// A parsed deposit
''','''impl<T> TransactionRequest<T> {
	fn forget_pending_task(&mut self) {
		if let TransactionRequest::Acknowledged {
			has_pending_task, ..
		} = self
		{
			*has_pending_task = false;
		}
	}
}

/// A parsed deposit
''')],0),
# 11 for loops in bootstrap
(T,[('''				withdrawals
					.iter_mut()
					.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
					.for_each(|req| {
						if let TransactionRequest::Acknowledged {
							has_pending_task,
							..
						} = req
						{
							*has_pending_task = false;
						}
					});
''','''				for withdrawal in withdrawals.iter_mut() {
					if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = withdrawal.fulfillment.as_mut()
					{
						*has_pending_task = false;
					}
				}
''')],0),
# 12 get_bitcoin_transactions as for loop
(T,[('''		withdrawals
			.iter_mut()
			.filter_map(|withdrawal| match withdrawal.burn {
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				}) => match withdrawal.fulfillment.as_mut() {
					None => {
						withdrawal.fulfillment =
							Some(TransactionRequest::Created);
						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					_ => None,
				},
				_ => None,
			})
			.collect()
''','''		let mut tasks = vec![];

		for withdrawal in withdrawals {
			let is_burned = matches!(
				withdrawal.burn,
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				})
			);

			if is_burned && withdrawal.fulfillment.is_none() {
				withdrawal.fulfillment = Some(TransactionRequest::Created);
				tasks.push(Task::CreateFulfillment(withdrawal.info.clone()));
			}
		}

		tasks
''')],0),
# 13 get_bitcoin_status_checks as for loop with let-else
(T,[('''			State::Initialized { withdrawals, .. } => withdrawals
				.iter_mut()
				.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
				.filter_map(|req| match req {
					TransactionRequest::Acknowledged {
						txid,
						status: TransactionStatus::Broadcasted,
						has_pending_task,
					} if !*has_pending_task => {
						*has_pending_task = true;
						Some(Task::CheckBitcoinTransactionStatus(*txid))
					}
					_ => None,
				})
				.collect(),
			_ => vec![],''','''			State::Initialized { withdrawals, .. } => {
				let mut tasks = Vec::with_capacity(withdrawals.len());

				for withdrawal in withdrawals.iter_mut() {
					let Some(TransactionRequest::Acknowledged {
						txid,
						status: TransactionStatus::Broadcasted,
						has_pending_task,
					}) = withdrawal.fulfillment.as_mut()
					else {
						continue;
					};

					if !*has_pending_task {
						*has_pending_task = true;
						tasks.push(Task::CheckBitcoinTransactionStatus(*txid));
					}
				}

				tasks
			}
			_ => vec![],''')],0),
# 14 update count by filter().count()
(T,[('''			    *current_status = status.clone();
			    *has_pending_task = false;

			    true
			}).map(|updated| updated as usize).sum();
''','''			    *current_status = status.clone();
			    *has_pending_task = false;

			    true
			}).filter(|updated| *updated).count();
''')],0),
# 15 match in process_stacks_block with or-pattern
(T,[('''			State::ContractPublicKeySetup {
				stacks_block_height,
				..
			} => stacks_block_height,
			State::Initialized {
				stacks_block_height,
				..
			} => stacks_block_height,
		};

		*stacks''','''			State::ContractPublicKeySetup {
				stacks_block_height,
				..
			}
			| State::Initialized {
				stacks_block_height,
				..
			} => stacks_block_height,
		};

		*stacks''')],0),
# 16 tasks built with one chain
(T,[('''		let mut tasks = vec![Task::FetchBitcoinBlock(bitcoin_height + 1)];

		tasks.extend(self.get_bitcoin_status_checks());
		tasks.extend(self.get_stacks_transactions());

		tasks
''','''		let status_checks = self.get_bitcoin_status_checks();
		let transactions = self.get_stacks_transactions();

		iter::once(Task::FetchBitcoinBlock(bitcoin_height + 1))
			.chain(status_checks)
			.chain(transactions)
			.collect()
''')],0),
# 17 tasks extended the other way round (statement order)
(T,[('''		deposits.extend(parse_deposits(config, bitcoin_height, &block));
		withdrawals.extend(parse_withdrawals(config, &block));
''','''		let new_withdrawals = parse_withdrawals(config, &block);
		let new_deposits = parse_deposits(config, bitcoin_height, &block);

		withdrawals.extend(new_withdrawals);
		deposits.extend(new_deposits);
''')],0),
# 18 parse_deposits with for loop
(T,[('''	block
		.txdata
		.iter()
		.cloned()
		.filter_map(|tx| {
			let txid = tx.txid();

			op_return::deposit::Deposit::parse(
				config.bitcoin_credentials.network(),
				tx,
			)
			.ok()
			.filter(|parsed_deposit| {
				parsed_deposit.sbtc_wallet_address == sbtc_wallet_address
			})
			.map(|parsed_deposit| {
				let bytes = parsed_deposit.recipient.serialize_to_vec();
				let recipient = PrincipalData::consensus_deserialize(
					&mut Cursor::new(bytes),
				)
				.unwrap();

				Deposit {
					info: DepositInfo {
						txid,
						amount: parsed_deposit.amount,
						recipient,
						block_height: bitcoin_height,
					},
					mint: None,
				}
			})
		})
		.collect()
''','''	let mut deposits = vec![];

	for tx in &block.txdata {
		let parsed = op_return::deposit::Deposit::parse(
			config.bitcoin_credentials.network(),
			tx.clone(),
		);

		let Ok(parsed_deposit) = parsed else {
			continue;
		};

		if parsed_deposit.sbtc_wallet_address != sbtc_wallet_address {
			continue;
		}

		let bytes = parsed_deposit.recipient.serialize_to_vec();
		let recipient =
			PrincipalData::consensus_deserialize(&mut Cursor::new(bytes))
				.unwrap();

		deposits.push(Deposit {
			info: DepositInfo {
				txid: tx.txid(),
				amount: parsed_deposit.amount,
				recipient,
				block_height: bitcoin_height,
			},
			mint: None,
		});
	}

	deposits
''')],0),
# 19 helper for scheduled height
(T,[('''							let scheduled_block_height = *stacks_block_height
								+ STX_TRANSACTION_DELAY_BLOCKS;
''','''							let scheduled_block_height =
								scheduled_height(*stacks_block_height);
'''),('''								let scheduled_block_height =
									*stacks_block_height
										+ STX_TRANSACTION_DELAY_BLOCKS;
''','''								let scheduled_block_height =
									scheduled_height(*stacks_block_height);
'''),('''impl Default for State {''','''fn scheduled_height(current: u32) -> u32 {
	current + STX_TRANSACTION_DELAY_BLOCKS
}

impl Default for State {''')],0),
# 20 match -> if let else-if
(T,[('''		if statuses_updated != 1 {
			panic!(
				"Unexpected number of statuses updated: {}",
				statuses_updated
			);
		}
''','''		assert_eq!(statuses_updated, 1, "Unexpected number of statuses updated");
''')],0),
# 21 process_mint_broadcasted by position/index
(T,[('''		let deposit = deposits
			.iter_mut()
			.find(|deposit| deposit.info == deposit_info)
			.expect("Could not find a deposit for the mint");
''','''		let index = deposits
			.iter()
			.position(|deposit| deposit.info == deposit_info)
			.expect("Could not find a deposit for the mint");
		let deposit = &mut deposits[index];
''')],0),
# 22 bitcoin client: outputs loop to for_each
(B,[('''				for (script, amount) in outputs.clone() {
					tx_builder.add_recipient(script, amount);
				}
''','''				outputs.iter().for_each(|(script, amount)| {
					tx_builder.add_recipient(script.clone(), *amount);
				});
''')],0),
# 23 bitcoin client: set_recipients
(B,[('''				for (script, amount) in outputs.clone() {
					tx_builder.add_recipient(script, amount);
				}
''','''				tx_builder.set_recipients(outputs.clone());
''')],0),
# 24 status by if
(B,[('''		let res = match (is_confirmed, in_mempool) {
			(true, _) => TransactionStatus::Confirmed,
			(false, true) => TransactionStatus::Broadcasted,
			(false, false) => TransactionStatus::Rejected,
		};
''','''		let res = if is_confirmed {
			TransactionStatus::Confirmed
		} else if in_mempool {
			TransactionStatus::Broadcasted
		} else {
			TransactionStatus::Rejected
		};
''')],0),
# 25 confirmations with matches
(B,[('''		.and_then(|tx| tx.confirmations)
		.map(|confirmations| confirmations > 0)
		.unwrap_or_default();''','''		.map_or(false, |tx| tx.confirmations.unwrap_or(0) > 0);''')],0),
# 26 broadcast used by sign_and_broadcast
(B,[('''		let txid: Txid = self
			.execute(move |client| client.send_raw_transaction(&tx))
			.await??;

		Ok(txid)
''','''		let txid = tx.txid();

		self.broadcast(tx).await?;

		Ok(txid)
''')],0),
]
