PROPS="P17 P18 P19 P20 P21 P36"
S="romeo/src/state.rs"
MUTS=[
# 0 for loop
(S,[("""			.find(|deposit| deposit.info == deposit_info)
			.expect("Could not find a deposit for the mint");
""","""			.filter(|deposit| deposit.info == deposit_info)
			.next()
			.expect("Could not find a deposit for the mint");
""")],0),
# 1 position and index
(S,[("""		let withdrawal = withdrawals
			.iter_mut()
			.find(|withdrawal| withdrawal.info == withdrawal_info)
			.expect("Could not find a withdrawal for the burn");
""","""		let index = withdrawals
			.iter()
			.position(|withdrawal| withdrawal.info == withdrawal_info)
			.expect("Could not find a withdrawal for the burn");
		let withdrawal = &mut withdrawals[index];
""")],0),
# 2 for loop with tasks
(S,[("""		withdrawals
			.iter_mut()
			.filter_map(|withdrawal| match withdrawal.burn {
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				}) => match withdrawal.fulfillment.as_mut() {
					None => {
						withdrawal.fulfillment =
							Some(TransactionRequest::Created);
						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					_ => None,
				},
				_ => None,
			})
			.collect()""","""		let mut tasks = Vec::new();
		for withdrawal in withdrawals.iter_mut() {
			let burn_confirmed = matches!(
				withdrawal.burn,
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				})
			);
			if burn_confirmed && withdrawal.fulfillment.is_none() {
				withdrawal.fulfillment = Some(TransactionRequest::Created);
				tasks.push(Task::CreateFulfillment(withdrawal.info.clone()));
			}
		}
		tasks""")],0),
# 3 loop for status checks
(S,[("""		reqs.into_iter()
			.filter_map(|req| match req {
				TransactionRequest::Acknowledged {
					txid,
					status: TransactionStatus::Broadcasted,
					has_pending_task,
				} if !*has_pending_task => {
					*has_pending_task = true;
					Some(Task::CheckStacksTransactionStatus(*txid))
				}
				_ => None,
			})
			.collect()""","""		let mut tasks = vec![];
		for req in reqs {
			if let TransactionRequest::Acknowledged {
				txid,
				status: TransactionStatus::Broadcasted,
				has_pending_task,
			} = req
			{
				if *has_pending_task {
					continue;
				}
				*has_pending_task = true;
				tasks.push(Task::CheckStacksTransactionStatus(*txid));
			}
		}
		tasks""")],0),
# 4 bootstrap: one loop with helper fn
(S,[("""				iter::empty()
					.chain(
						deposits
							.iter_mut()
							.filter_map(|deposit| deposit.mint.as_mut()),
					)
					.chain(
						withdrawals
							.iter_mut()
							.filter_map(|withdrawal| withdrawal.burn.as_mut()),
					)
					.for_each(|req| {
						if let TransactionRequest::Acknowledged {
							has_pending_task,
							..
						} = req
						{
							*has_pending_task = false;
						}
					});

				withdrawals
					.iter_mut()
					.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
					.for_each(|req| {
						if let TransactionRequest::Acknowledged {
							has_pending_task,
							..
						} = req
						{
							*has_pending_task = false;
						}
					});
""","""				for deposit in deposits.iter_mut() {
					rearm(&mut deposit.mint);
				}
				for withdrawal in withdrawals.iter_mut() {
					rearm(&mut withdrawal.burn);
					rearm(&mut withdrawal.fulfillment);
				}
"""),("""/// A transaction request
#[derive(""","""fn rearm<T>(request: &mut Option<TransactionRequest<T>>) {
	if let Some(TransactionRequest::Acknowledged {
		has_pending_task, ..
	}) = request
	{
		*has_pending_task = false;
	}
}

/// A transaction request
#[derive(""")],0),
# 5 statuses updated counted in loops
(S,[("""		let statuses_updated: usize = withdrawals
	        .iter_mut()
	        .filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
			.map(|req| {
				let TransactionRequest::Acknowledged {
					txid: current_txid,
					status: current_status,
					has_pending_task,
				} = req
				else {
					// Does not have a transaction ID yet, so the update is
					// about another request
					return false;
				};

				if txid != *current_txid {
					return false;
				}
""","""		let mut statuses_updated = 0;
		for withdrawal in withdrawals.iter_mut() {
				let Some(TransactionRequest::Acknowledged {
					txid: current_txid,
					status: current_status,
					has_pending_task,
				}) = withdrawal.fulfillment.as_mut()
				else {
					continue;
				};

				if txid != *current_txid {
					continue;
				}
"""),("""			    *current_status = status.clone();
			    *has_pending_task = false;

			    true
			}).map(|updated| updated as usize).sum();

		if statuses_updated != 1 {""","""			    *current_status = status.clone();
			    *has_pending_task = false;

			    statuses_updated += 1;
			}

		if statuses_updated != 1 {""")],0),
# 6 split get_stacks_transactions: deposit handled by a method on Deposit
(S,[("""				let deposit_tasks = deposits.iter_mut().filter_map(|deposit| {
					match deposit.mint.as_mut() {
						None => {
							// We often receive the deposit before the
							// transaction is actually mined. By scheduling the
							// transaction for a block later than the current
							// one we make ourselves resilient to mining delays
							// without complex logic.
							let scheduled_block_height = *stacks_block_height
								+ STX_TRANSACTION_DELAY_BLOCKS;

							deposit.mint =
								Some(TransactionRequest::Scheduled {
									block_height: scheduled_block_height,
								});

							debug!("Scheduled deposit {} for minting on stacks block height {}.",
								deposit.info.txid, scheduled_block_height);

							None
						}
						Some(TransactionRequest::Scheduled {
							block_height,
						}) if (*block_height <= *stacks_block_height) => {
							// Only initiate the mint task if the current
							// stacks block is or is after the stacks block
							// for which the mint is scheduled.
							deposit.mint = Some(TransactionRequest::Created);
							debug!("Created mint for {}.", deposit.info.txid);
							Some(Task::CreateMint(deposit.info.clone()))
						}
						_ => None,
					}
				});
""","""				let height = *stacks_block_height;
				let deposit_tasks = deposits
					.iter_mut()
					.filter_map(|deposit| advance(&mut deposit.mint, height).then(|| Task::CreateMint(deposit.info.clone())));
"""),("""/// A transaction request
#[derive(""","""fn advance<T>(request: &mut Option<TransactionRequest<T>>, height: u32) -> bool {
	match request {
		None => {
			*request = Some(TransactionRequest::Scheduled { block_height: height + STX_TRANSACTION_DELAY_BLOCKS });
			false
		}
		Some(TransactionRequest::Scheduled { block_height }) if !(*block_height > height) => {
			*request = Some(TransactionRequest::Created);
			true
		}
		Some(_) => false,
	}
}

/// A transaction request
#[derive(""")],0),
# 7 stacks block: order of statements
(S,[("""		let mut tasks = vec![Task::FetchStacksBlock(stacks_height + 1)];

		tasks.extend(self.get_stacks_status_checks());
		tasks.extend(self.get_bitcoin_transactions());

		tasks""","""		let mut tasks = self.get_bitcoin_transactions();
		tasks.append(&mut self.get_stacks_status_checks());
		tasks.push(Task::FetchStacksBlock(stacks_height + 1));
		tasks""")],0),
# 8 extend by push loops
(S,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));","		for deposit in parse_deposits(config, bitcoin_height, &block) {\n			deposits.push(deposit);\n		}")],0),
# 9 append
(S,[("		withdrawals.extend(parse_withdrawals(config, &block));","		let mut new_withdrawals = parse_withdrawals(config, &block);\n		withdrawals.append(&mut new_withdrawals);")],0),
# 10 match in update on (self,event) style: status updates helper; into_iter().collect() dropped
(S,[("""				.process_stacks_transaction_update(txid, status, config)
				.into_iter()
				.collect(),""","""				.process_stacks_transaction_update(txid, status, config),""")],0),
# 11 index loop
(S,[("""				let mint_reqs = deposits
					.iter_mut()
					.filter_map(|deposit| deposit.mint.as_mut());
				let burn_reqs = withdrawals
					.iter_mut()
					.filter_map(|withdrawal| withdrawal.burn.as_mut());

				mint_reqs.chain(burn_reqs).collect()""","""				let mut reqs: Vec<&mut TransactionRequest<StacksTxId>> = Vec::new();
				for deposit in deposits {
					reqs.extend(deposit.mint.as_mut());
				}
				for withdrawal in withdrawals {
					if let Some(req) = withdrawal.burn.as_mut() {
						reqs.push(req);
					}
				}
				reqs""")],0),
# 12 bitcoin transactions with nested if-let and index loop
(S,[("""		withdrawals
			.iter_mut()
			.filter_map(|withdrawal| match withdrawal.burn {
				Some(TransactionRequest::Acknowledged {
					status: TransactionStatus::Confirmed,
					..
				}) => match withdrawal.fulfillment.as_mut() {
					None => {
						withdrawal.fulfillment =
							Some(TransactionRequest::Created);
						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					_ => None,
				},
				_ => None,
			})
			.collect()""","""		let mut tasks = Vec::with_capacity(withdrawals.len());
		for i in 0..withdrawals.len() {
			if let (
				Some(TransactionRequest::Acknowledged { status, .. }),
				None,
			) = (&withdrawals[i].burn, &withdrawals[i].fulfillment)
			{
				if *status == TransactionStatus::Confirmed {
					withdrawals[i].fulfillment =
						Some(TransactionRequest::Created);
					tasks.push(Task::CreateFulfillment(withdrawals[i].info.clone()));
				}
			}
		}
		tasks""")],0),
]
