PROPS="P17 P18 P19 P20 P21 P36"
S="romeo/src/state.rs"
MUTS=[
# 0 order without marking
(S,[("""							deposit.mint = Some(TransactionRequest::Created);
							debug!""","""							debug!""")],1),
# 1 mint ordered again while acknowledged
(S,[("""							Some(Task::CreateMint(deposit.info.clone()))
						}
						_ => None,""","""							Some(Task::CreateMint(deposit.info.clone()))
						}
						Some(TransactionRequest::Acknowledged {
							status: TransactionStatus::Rejected,
							..
						}) => {
							deposit.mint = Some(TransactionRequest::Created);
							Some(Task::CreateMint(deposit.info.clone()))
						}
						_ => None,""")],1),
# 2 <= to >=
(S,[("if (*block_height <= *stacks_block_height) => {","if (*block_height >= *stacks_block_height) => {")],1),
# 3 fulfil on broadcast
(S,[("""					status: TransactionStatus::Confirmed,
					..
				}) => match withdrawal.fulfillment""","""					..
				}) => match withdrawal.fulfillment""")],1),
# 4 fulfil regardless of existing
(S,[("""						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					_ => None,""","""						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					Some(TransactionRequest::Created) => {
						Some(Task::CreateFulfillment(withdrawal.info.clone()))
					}
					_ => None,""")],1),
# 5 fetch h+2
(S,[("vec![Task::FetchBitcoinBlock(bitcoin_height + 1)]","vec![Task::FetchBitcoinBlock(bitcoin_height + 2)]")],1),
# 6 height from own counter
(S,[("		*stacks_block_height = stacks_height;","		*stacks_block_height += 1;\n		let _ = stacks_height;")],1),
# 7 bootstrap h
(S,[("					Task::FetchStacksBlock(*stacks_block_height + 1),\n					Task::FetchBitcoinBlock(*bitcoin_block_height + 1),","					Task::FetchStacksBlock(*stacks_block_height + 1),\n					Task::FetchBitcoinBlock(*bitcoin_block_height),")],1),
# 8 bootstrap doesn't rearm burns
(S,[("""						withdrawals
							.iter_mut()
							.filter_map(|withdrawal| withdrawal.burn.as_mut()),
					)
					.for_each(""","""						withdrawals
							.iter_mut()
							.filter_map(|withdrawal| withdrawal.burn.as_mut())
							.take(0),
					)
					.for_each(""")],1),
# 9 status update ignores txid
(S,[("""						if txid != *current_txid {
							return false;
						}

					    if !""","""					    if !""")],1),
# 10 status not stored
(S,[("""					    *current_status = status.clone();
					    *has_pending_task = false;

					    true
					})""","""					    *has_pending_task = *current_status == status;

					    true
					})""")],1),
# 11 bitcoin update pending stays
(S,[("""			    *current_status = status.clone();
			    *has_pending_task = false;

			    true""","""			    *current_status = status.clone();

			    true""")],1),
# 12 original defect 962d10c
(S,[("""							// Does not have a transaction ID yet, so the
							// update is about another request
							return false;""","""							panic!("x");""")],1),
# 13 != 1
(S,[("if statuses_updated == 0 {","if statuses_updated != 1 {")],1),
# 14 mint broadcasted matched by amount
(S,[(".find(|deposit| deposit.info == deposit_info)",".find(|deposit| deposit.info.recipient == deposit_info.recipient)")],1),
# 15 last deposit
(S,[("""			.iter_mut()
			.find(|withdrawal| withdrawal.info == withdrawal_info)
			.expect("Could not find a withdrawal for the burn");""","""			.last_mut()
			.expect("Could not find a withdrawal for the burn");""")],1),
# 16 burn broadcast noted in fulfilment
(S,[("		withdrawal.burn = Some(TransactionRequest::Acknowledged {","		withdrawal.fulfillment = None;\n		withdrawal.burn = Some(TransactionRequest::Acknowledged {")],1),
# 17 status check for confirmed too
(S,[("""					status: TransactionStatus::Broadcasted,
					has_pending_task,
				} if !*has_pending_task => {
					*has_pending_task = true;
					Some(Task::CheckStacks""","""					has_pending_task,
					..
				} if !*has_pending_task => {
					*has_pending_task = true;
					Some(Task::CheckStacks""")],1),
# 18 not marking
(S,[("""					*has_pending_task = true;
					Some(Task::CheckStacks""","""					Some(Task::CheckStacks""")],1),
# 19 burn reqs only checked
(S,[("				mint_reqs.chain(burn_reqs).collect()","				mint_reqs.chain(burn_reqs).take(128).collect()")],1),
# 20 initialised on rejected
(S,[("if *current_status == TransactionStatus::Confirmed {","if *current_status != TransactionStatus::Broadcasted {")],1),
# 21 start scanning from the stacks height
(S,[("""					tasks.push(Task::FetchBitcoinBlock(
						bitcoin_block_height + 1,""","""					tasks.push(Task::FetchBitcoinBlock(
						bitcoin_block_height,""")],1),
# 22 deposits replaced by new ones
(S,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));","		*deposits = parse_deposits(config, bitcoin_height, &block);")],1),
# 23 deposits that are confirmed dropped
(S,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));","		deposits.retain(|deposit| !matches!(deposit.mint, Some(TransactionRequest::Acknowledged { status: TransactionStatus::Confirmed, .. })));\n		deposits.extend(parse_deposits(config, bitcoin_height, &block));")],1),
# 24 task with the wrong element's info
(S,[("Some(Task::CreateBurn(withdrawal.info.clone()))","Some(Task::CreateBurn(WithdrawalInfo { amount: 0, ..withdrawal.info.clone() }))")],1),
# 25 schedule later
(S,[("const STX_TRANSACTION_DELAY_BLOCKS: u32 = 1;","const STX_TRANSACTION_DELAY_BLOCKS: u32 = 2;")],0),
# 26 stacks block also reschedules? fetch twice
(S,[("		let mut tasks = vec![Task::FetchStacksBlock(stacks_height + 1)];","		let mut tasks = vec![\n			Task::FetchStacksBlock(stacks_height + 1),\n			Task::FetchBitcoinBlock(stacks_height + 1),\n		];")],1),
# 27 burns scheduled only at even heights
(S,[("""						match withdrawal.burn.as_mut() {
							None => {""","""						match withdrawal.burn.as_mut() {
							None if withdrawal.info.amount < 1_000_000_000 => {""")],1),
# 28 key setup not rearmed (orig defect)
(S,[("""					*has_pending_task = false;
				}

				vec![Task::FetchStacksBlock""","""					let _ = has_pending_task;
				}

				vec![Task::FetchStacksBlock""")],1),
# 29 key setup never checked
(S,[("			} => vec![public_key_setup],","			} => {\n				let _ = public_key_setup;\n				vec![]\n			}")],1),
# 30 strict-only check of created: created anew on broadcast of an acknowledged request
(S,[("""		deposit.mint = Some(TransactionRequest::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task: false,
		});""","""		deposit.mint = Some(TransactionRequest::Acknowledged {
			txid,
			status: TransactionStatus::Broadcasted,
			has_pending_task: true,
		});""")],1),
]
