"""behaviour-preserving rewrites of the relayer's state machine, in other styles; and a few breaking twins"""
SCOPE = "romeo"
PROPS = "P16 P17 P18 P19 P20 P21 P35 P36 P24"
F = "romeo/src/state.rs"
REQ = "/// A parsed deposit\n#[derive"
R1 = '''					.for_each(|req| {
						if let TransactionRequest::Acknowledged {
							has_pending_task,
							..
						} = req
						{
							*has_pending_task = false;
						}
					});
'''
RESET = '''impl<T> TransactionRequest<T> {
	fn forget_task(&mut self) {
		if let Self::Acknowledged {
			has_pending_task, ..
		} = self
		{
			*has_pending_task = false;
		}
	}
}

'''
BOOT = '''				iter::empty()
					.chain(
						deposits
							.iter_mut()
							.filter_map(|deposit| deposit.mint.as_mut()),
					)
					.chain(
						withdrawals
							.iter_mut()
							.filter_map(|withdrawal| withdrawal.burn.as_mut()),
					)
''' + R1 + '''
				withdrawals
					.iter_mut()
					.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
''' + R1
ADV_OLD = '''				let deposit_tasks = deposits.iter_mut().filter_map(|deposit| {
					match deposit.mint.as_mut() {
						None => {
							// We often receive the deposit before the
							// transaction is actually mined. By scheduling the
							// transaction for a block later than the current
							// one we make ourselves resilient to mining delays
							// without complex logic.
							let scheduled_block_height = *stacks_block_height
								+ STX_TRANSACTION_DELAY_BLOCKS;

							deposit.mint =
								Some(TransactionRequest::Scheduled {
									block_height: scheduled_block_height,
								});

							debug!("Scheduled deposit {} for minting on stacks block height {}.",
								deposit.info.txid, scheduled_block_height);

							None
						}
						Some(TransactionRequest::Scheduled {
							block_height,
						}) if (*block_height <= *stacks_block_height) => {
							// Only initiate the mint task if the current
							// stacks block is or is after the stacks block
							// for which the mint is scheduled.
							deposit.mint = Some(TransactionRequest::Created);
							debug!("Created mint for {}.", deposit.info.txid);
							Some(Task::CreateMint(deposit.info.clone()))
						}
						_ => None,
					}
				});
'''
ADV_NEW = '''				let height = *stacks_block_height;
				let deposit_tasks = deposits.iter_mut().filter_map(|deposit| {
					advance(&mut deposit.mint, height).then(|| {
						debug!("Created mint for {}.", deposit.info.txid);
						Task::CreateMint(deposit.info.clone())
					})
				});
'''
ADV_FN = '''/// Whether the transaction is to be created now
fn advance<T>(
	request: &mut Option<TransactionRequest<T>>,
	stacks_block_height: u32,
) -> bool {
	match request {
		None => {
			*request = Some(TransactionRequest::Scheduled {
				block_height: stacks_block_height
					+ STX_TRANSACTION_DELAY_BLOCKS,
			});

			false
		}
		Some(TransactionRequest::Scheduled { block_height })
			if stacks_block_height >= *block_height =>
		{
			request.replace(TransactionRequest::Created);

			true
		}
		Some(_) => false,
	}
}

'''
BT = '''		withdrawals
			.iter_mut()
			.filter_map(|withdrawal| match withdrawal.burn {
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				}) => match withdrawal.fulfillment.as_mut() {
					None => {
						withdrawal.fulfillment =
							Some(TransactionRequest::Created);
						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					_ => None,
				},
				_ => None,
			})
			.collect()
'''
SC = '''		reqs.into_iter()
			.filter_map(|req| match req {
				TransactionRequest::Acknowledged {
					txid,
					status: TransactionStatus::Broadcasted,
					has_pending_task,
				} if !*has_pending_task => {
					*has_pending_task = true;
					Some(Task::CheckStacksTransactionStatus(*txid))
				}
				_ => None,
			})
			.collect()
'''
BC = '''				.filter_map(|req| match req {
					TransactionRequest::Acknowledged {
						txid,
						status: TransactionStatus::Broadcasted,
						has_pending_task,
					} if !*has_pending_task => {
						*has_pending_task = true;
						Some(Task::CheckBitcoinTransactionStatus(*txid))
					}
					_ => None,
				})
				.collect(),
'''
CHK = '''impl<T: Copy> TransactionRequest<T> {
	/// The transaction whose status has to be asked for, if any
	fn begin_check(&mut self) -> Option<T> {
		let Self::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task,
		} = self
		else {
			return None;
		};

		if std::mem::replace(has_pending_task, true) {
			return None;
		}

		Some(*txid)
	}
}

'''
SB = '''		let stacks_block_height = match self {
			State::Uninitialized | State::ContractDetected { .. } => panic!("Cannot process Stacks block if uninitialized or contract detected"),
			State::ContractPublicKeySetup {
				stacks_block_height,
				..
			} => stacks_block_height,
			State::Initialized {
				stacks_block_height,
				..
			} => stacks_block_height,
		};

		*stacks_block_height = stacks_height;

		let mut tasks = vec![Task::FetchStacksBlock(stacks_height + 1)];

		tasks.extend(self.get_stacks_status_checks());
		tasks.extend(self.get_bitcoin_transactions());

		tasks
'''
MB = '''		debug!("Mint broadcasted: {:?}", deposit.mint);
		if config.strict {
			assert!(
				matches!(deposit.mint, Some(TransactionRequest::Created)),
				"Newly minted deposit already has mint acknowledged"
			);
		}

		deposit.mint = Some(TransactionRequest::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task: false,
		});
'''
MUTS = [
 # 0 a method that forgets the task
 (F, [(BOOT, '''				for deposit in deposits.iter_mut() {
					if let Some(mint) = &mut deposit.mint {
						mint.forget_task();
					}
				}

				for withdrawal in withdrawals.iter_mut() {
					if let Some(burn) = &mut withdrawal.burn {
						burn.forget_task();
					}
					if let Some(fulfillment) = &mut withdrawal.fulfillment {
						fulfillment.forget_task();
					}
				}
'''), (REQ, RESET + REQ)], 0),
 # 1 in one pattern
 (F, [(BOOT, '''				for deposit in deposits {
					if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = &mut deposit.mint
					{
						*has_pending_task = false;
					}
				}

				for Withdrawal {
					burn, fulfillment, ..
				} in withdrawals
				{
					if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = burn
					{
						*has_pending_task = false;
					}
					if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = fulfillment
					{
						*has_pending_task = false;
					}
				}
''')], 0),
 # 2 breaking twin of 1: the pending fulfilment is forgotten only beside a burn
 (F, [(BOOT, '''				for deposit in deposits {
					if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = &mut deposit.mint
					{
						*has_pending_task = false;
					}
				}

				for Withdrawal {
					burn, fulfillment, ..
				} in withdrawals
				{
					if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = burn
					{
						*has_pending_task = false;
					} else if let Some(TransactionRequest::Acknowledged {
						has_pending_task,
						..
					}) = fulfillment
					{
						*has_pending_task = false;
					}
				}
''')], 1),
 # 3 update: statements reordered, tasks named
 (F, [('''			Event::StacksBlock(height, txs) => {
				self.process_stacks_block(height, txs).into_iter().collect()
			}
''', '''			Event::StacksBlock(height, txs) => {
				let tasks = self.process_stacks_block(height, txs);

				tasks
			}
'''), ('''				self.process_mint_broadcasted(deposit_info, txid, config);
				vec![]
''', '''				self.process_mint_broadcasted(deposit_info, txid, config);
				Vec::new()
''')], 0),
 # 4 set public key by taking the state
 (F, [('''		let State::ContractDetected {
			stacks_block_height,
			bitcoin_block_height,
		} = self
		else {
			panic!("Cannot process contract public key when contract is not detected")
		};

		let stacks_block_height = *stacks_block_height;
		let bitcoin_block_height = *bitcoin_block_height;

		*self''', '''		let (stacks_block_height, bitcoin_block_height) = match std::mem::take(self) {
			State::ContractDetected {
				stacks_block_height,
				bitcoin_block_height,
			} => (stacks_block_height, bitcoin_block_height),
			_ => panic!("Cannot process contract public key when contract is not detected"),
		};

		*self''')], 0),
 # 5 heights by one pattern
 (F, [(SB, '''		match self {
			State::ContractPublicKeySetup {
				stacks_block_height,
				..
			}
			| State::Initialized {
				stacks_block_height,
				..
			} => *stacks_block_height = stacks_height,
			_ => panic!("Cannot process Stacks block if uninitialized or contract detected"),
		}

		iter::once(Task::FetchStacksBlock(stacks_height + 1))
			.chain(self.get_stacks_status_checks())
			.chain(self.get_bitcoin_transactions())
			.collect()
''')], 0),
 # 6 breaking twin: the checks see the fulfilments of the same block (payouts before status checks is fine, height is not)
 (F, [(SB, SB.replace('''		*stacks_block_height = stacks_height;
''', '''		*stacks_block_height = stacks_height.max(*stacks_block_height);
'''))], 1),
 # 7 a helper that advances a request
 (F, [(ADV_OLD, ADV_NEW), (REQ, ADV_FN + REQ)], 0),
 # 8 breaking twin of 7: the schedule is due one block late
 (F, [(ADV_OLD, ADV_NEW), (REQ, ADV_FN.replace("stacks_block_height >= *block_height", "stacks_block_height > *block_height") + REQ)], 1),
 # 9 payouts in a loop
 (F, [(BT, '''		let mut tasks = vec![];

		for withdrawal in withdrawals.iter_mut() {
			let burned = matches!(
				withdrawal.burn,
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				})
			);

			if !burned || withdrawal.fulfillment.is_some() {
				continue;
			}

			withdrawal.fulfillment = Some(TransactionRequest::Created);
			tasks.push(Task::CreateFulfillment(withdrawal.info.clone()));
		}

		tasks
''')], 0),
 # 10 payouts by filter and map
 (F, [(BT, '''		withdrawals
			.iter_mut()
			.filter(|withdrawal| withdrawal.fulfillment.is_none())
			.filter(|withdrawal| {
				let Some(TransactionRequest::Acknowledged { status, .. }) =
					&withdrawal.burn
				else {
					return false;
				};

				*status == TransactionStatus::Confirmed
			})
			.map(|withdrawal| {
				withdrawal.fulfillment.insert(TransactionRequest::Created);
				Task::CreateFulfillment(withdrawal.info.clone())
			})
			.collect()
''')], 0),
 # 11 breaking twin of 9: payouts also while the burn is not confirmed yet but a later one is
 (F, [(BT, '''		let mut tasks = vec![];
		let mut burned = false;

		for withdrawal in withdrawals.iter_mut() {
			burned |= matches!(
				withdrawal.burn,
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				})
			);

			if !burned || withdrawal.fulfillment.is_some() {
				continue;
			}

			withdrawal.fulfillment = Some(TransactionRequest::Created);
			tasks.push(Task::CreateFulfillment(withdrawal.info.clone()));
		}

		tasks
''')], 1),
 # 12 a method that begins a check
 (F, [(SC, '''		reqs.into_iter()
			.filter_map(|req| req.begin_check())
			.map(Task::CheckStacksTransactionStatus)
			.collect()
'''), (BC, '''				.filter_map(TransactionRequest::begin_check)
				.map(Task::CheckBitcoinTransactionStatus)
				.collect(),
'''), (REQ, CHK + REQ)], 0),
 # 13 checks in a loop
 (F, [(SC, '''		let mut checks = Vec::with_capacity(reqs.len());

		for req in reqs {
			if let TransactionRequest::Acknowledged {
				txid,
				status: TransactionStatus::Broadcasted,
				has_pending_task: pending @ false,
			} = req
			{
				*pending = true;
				checks.push(Task::CheckStacksTransactionStatus(*txid));
			}
		}

		checks
''')], 0),
 # 14 broadcast: the request found by position
 (F, [('''		let deposit = deposits
			.iter_mut()
			.find(|deposit| deposit.info == deposit_info)
			.expect("Could not find a deposit for the mint");
''', '''		let position = deposits
			.iter()
			.position(|deposit| deposit.info == deposit_info)
			.expect("Could not find a deposit for the mint");
		let deposit = &mut deposits[position];
''')], 0),
 # 15 broadcast: checked with a match
 (F, [(MB, '''		debug!("Mint broadcasted: {:?}", deposit.mint);
		let acknowledged = TransactionRequest::Acknowledged {
			status: TransactionStatus::Broadcasted,
			has_pending_task: false,
			txid,
		};

		match deposit.mint.replace(acknowledged) {
			Some(TransactionRequest::Created) => (),
			_ if config.strict => {
				panic!("Newly minted deposit already has mint acknowledged")
			}
			_ => (),
		}
''')], 0),
 # 16 broadcast: shared helper
 (F, [(MB, '''		debug!("Mint broadcasted: {:?}", deposit.mint);
		acknowledge(&mut deposit.mint, txid, config.strict);
'''), ('''		if config.strict {
			assert!(
				matches!(withdrawal.burn, Some(TransactionRequest::Created)),
				"Newly burned withdrawal already has burn acknowledged"
			);
		}

		withdrawal.burn = Some(TransactionRequest::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task: false,
		});
''', '''		acknowledge(&mut withdrawal.burn, txid, config.strict);
'''), (REQ, '''fn acknowledge<T>(
	request: &mut Option<TransactionRequest<T>>,
	txid: T,
	strict: bool,
) {
	let created = matches!(request, Some(TransactionRequest::Created));
	assert!(!strict || created, "Request is not being broadcast");

	*request = Some(TransactionRequest::Acknowledged {
		txid,
		status: TransactionStatus::Broadcasted,
		has_pending_task: false,
	});
}

''' + REQ)], 0),
 # 17 parse: loop over transactions
 (F, [('''	block
		.txdata
		.iter()
		.cloned()
		.filter_map(|tx| {
			let txid = tx.txid();

			op_return::deposit::Deposit::parse(
				config.bitcoin_credentials.network(),
				tx,
			)
			.ok()
			.filter(|parsed_deposit| {
				parsed_deposit.sbtc_wallet_address == sbtc_wallet_address
			})
			.map(|parsed_deposit| {
				let bytes = parsed_deposit.recipient.serialize_to_vec();
				let recipient = PrincipalData::consensus_deserialize(
					&mut Cursor::new(bytes),
				)
				.unwrap();

				Deposit {
					info: DepositInfo {
						txid,
						amount: parsed_deposit.amount,
						recipient,
						block_height: bitcoin_height,
					},
					mint: None,
				}
			})
		})
		.collect()
''', '''	let network = config.bitcoin_credentials.network();
	let mut found = Vec::new();

	for tx in &block.txdata {
		let Ok(parsed) = op_return::deposit::Deposit::parse(network, tx.clone())
		else {
			continue;
		};

		if parsed.sbtc_wallet_address != sbtc_wallet_address {
			continue;
		}

		let mut bytes = Cursor::new(parsed.recipient.serialize_to_vec());
		let recipient =
			PrincipalData::consensus_deserialize(&mut bytes).unwrap();

		let info = DepositInfo {
			txid: tx.txid(),
			amount: parsed.amount,
			recipient,
			block_height: bitcoin_height,
		};

		found.push(Deposit { info, mint: None });
	}

	found
''')], 0),
 # 18 parse of withdrawals: destructured later
 (F, [('''			.map(
				|WithdrawalRequestData {
				     payee_bitcoin_address,
				     drawee_stacks_address,
				     amount,
				     ..
				 }| {
					let''', '''			.map(
				|request: WithdrawalRequestData| {
					let WithdrawalRequestData {
						payee_bitcoin_address,
						drawee_stacks_address,
						amount,
						..
					} = request;
					let''')], 0),
 # 19 bitcoin block: tasks first
 (F, [('''		deposits.extend(parse_deposits(config, bitcoin_height, &block));
		withdrawals.extend(parse_withdrawals(config, &block));

		let mut tasks = vec![Task::FetchBitcoinBlock(bitcoin_height + 1)];

		tasks.extend(self.get_bitcoin_status_checks());
		tasks.extend(self.get_stacks_transactions());

		tasks
''', '''		let mut new_withdrawals = parse_withdrawals(config, &block);
		let mut new_deposits = parse_deposits(config, bitcoin_height, &block);
		withdrawals.append(&mut new_withdrawals);
		deposits.append(&mut new_deposits);

		let checks = self.get_bitcoin_status_checks();
		let transactions = self.get_stacks_transactions();

		[
			vec![Task::FetchBitcoinBlock(bitcoin_height + 1)],
			checks,
			transactions,
		]
		.into_iter()
		.flatten()
		.collect()
''')], 0),
 # 20 stacks update: counted in a loop
 (F, [('''		if let Some(statuses_updated) = statuses_updated {
			// Requests that failed to broadcast share the placeholder
			// transaction ID, so an update may concern more than one of them
			if statuses_updated == 0 {
				panic!(
					"Unexpected number of Stacks statuses updated: {}",
					statuses_updated
				);
			}
		}

		tasks
''', '''		// Requests that failed to broadcast share the placeholder
		// transaction ID, so an update may concern more than one of them
		assert_ne!(
			statuses_updated,
			Some(0),
			"No Stacks status updated"
		);

		tasks
''')], 0),
 # 21 bitcoin update: counted by filter
 (F, [('''			    *current_status = status.clone();
			    *has_pending_task = false;

			    true
			}).map(|updated| updated as usize).sum();

		if statuses_updated != 1 {
''', '''			    *has_pending_task = false;
			    *current_status = status.clone();

			    true
			}).filter(|updated| *updated).count();

		if statuses_updated != 1 {
''')], 0),
]
