PROPS="P35"
T="romeo/src/state.rs"
PD=open("/repo/romeo/src/state.rs").read()
PD=PD[PD.index("fn parse_deposits("):PD.index("/// A transaction request\n")]
D,W=PD.split("fn parse_withdrawals",1); D=D; W="fn parse_withdrawals"+W
def wr(o,n):
    assert o in W,o
    return (W,W.replace(o,n,1))
def de(o,n):
    assert o in D,o
    return (D,D.replace(o,n,1))
MUTS=[
# 0 wrong network for deposits
(T,[de("config.bitcoin_credentials.network()","stacks_core::Network::Testnet")],1) ,
# 1 compare dropped
(T,[de("parsed_deposit.sbtc_wallet_address == sbtc_wallet_address","{ let _ = &sbtc_wallet_address; let _ = parsed_deposit; true }")],1),
# 2 compare dropped on withdrawals
(T,[wr("parsed_withdrawal.sbtc_wallet == sbtc_wallet_address","parsed_withdrawal.sbtc_wallet.network == sbtc_wallet_address.network")],1),
# 3 amount off
(T,[de("amount: parsed_deposit.amount,","amount: parsed_deposit.amount.saturating_sub(1),")],1),
# 4 coinbase skipped in deposits
(T,[de(".iter()\n",".iter()\n		.skip(1)\n")],1),
# 5 height off by one
(T,[de("block_height: bitcoin_height,","block_height: bitcoin_height + 1,")],1),
# 6 mint preset
(T,[de("mint: None,","mint: Some(TransactionRequest::Created),")],1),
# 7 burn preset scheduled
(T,[wr("burn: None,","burn: Some(TransactionRequest::Scheduled { block_height }),")],1),
# 8 recipient is the wallet
(T,[wr("recipient: payee_bitcoin_address,","recipient: { let _ = payee_bitcoin_address; sbtc_wallet_address.clone() },")],1),
# 9 one per block
(T,[de(".collect()",".take(1)\n		.collect()")],1),
# 10 not extended by withdrawals
(T,[("		withdrawals.extend(parse_withdrawals(config, &block));\n","		if deposits.is_empty() {\n			withdrawals.extend(parse_withdrawals(config, &block));\n		}\n")],1),
# 11 small deposits ignored
(T,[de("parsed_deposit.sbtc_wallet_address == sbtc_wallet_address","parsed_deposit.amount > 546\n					&& parsed_deposit.sbtc_wallet_address == sbtc_wallet_address")],1),
# 12 withdrawal network by address
(T,[wr("config.bitcoin_network,","sbtc_wallet_address.network,")],0),
# 13 wtxid
(T,[de("let txid = tx.txid();","let txid = bdk::bitcoin::Txid::from_hash(tx.wtxid().as_hash());")],1),
# 14 replaced instead of extended
(T,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n","		*deposits = parse_deposits(config, bitcoin_height, &block);\n")],1),
# 15 twice
(T,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n","		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n")],1),
# 16 reversed extend
(T,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n","		deposits.extend(parse_deposits(config, bitcoin_height, &block).into_iter().rev().take(100));\n")],1),
# 17 de-duplicated by amount
(T,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n","		let fresh: Vec<_> = parse_deposits(config, bitcoin_height, &block).into_iter().filter(|d| d.info.amount < 1 << 40).collect();\n		deposits.extend(fresh);\n")],1),
# refactorings
# 18 for loop with push
(T,[(D,'''fn parse_deposits(
	config: &Config,
	bitcoin_height: u32,
	block: &Block,
) -> Vec<Deposit> {
	let sbtc_wallet_address = config.sbtc_wallet_address();
	let mut found = Vec::new();
	for tx in &block.txdata {
		let txid = tx.txid();
		let Ok(parsed) = op_return::deposit::Deposit::parse(
			config.bitcoin_credentials.network(),
			tx.clone(),
		) else {
			continue;
		};
		if parsed.sbtc_wallet_address != sbtc_wallet_address {
			continue;
		}
		let bytes = parsed.recipient.serialize_to_vec();
		let recipient =
			PrincipalData::consensus_deserialize(&mut Cursor::new(bytes))
				.unwrap();
		found.push(Deposit {
			info: DepositInfo {
				txid,
				amount: parsed.amount,
				recipient,
				block_height: bitcoin_height,
			},
			mint: None,
		});
	}
	found
}

''')],0),
# 19 if-let inside filter_map
(T,[(D,'''fn parse_deposits(
	config: &Config,
	bitcoin_height: u32,
	block: &Block,
) -> Vec<Deposit> {
	let wallet = config.sbtc_wallet_address();
	let network = config.bitcoin_network;
	block
		.txdata
		.iter()
		.filter_map(|tx| parse_deposit(tx, network, &wallet, bitcoin_height))
		.collect()
}

fn parse_deposit(
	tx: &bdk::bitcoin::Transaction,
	network: bdk::bitcoin::Network,
	wallet: &BitcoinAddress,
	bitcoin_height: u32,
) -> Option<Deposit> {
	let parsed = op_return::deposit::Deposit::parse(network, tx.clone()).ok()?;
	if &parsed.sbtc_wallet_address == wallet {
		let recipient = PrincipalData::consensus_deserialize(
			&mut Cursor::new(parsed.recipient.serialize_to_vec()),
		)
		.unwrap();
		let info = DepositInfo {
			txid: tx.txid(),
			amount: parsed.amount,
			recipient,
			block_height: bitcoin_height,
		};
		Some(Deposit { info, mint: None })
	} else {
		None
	}
}

''')],0),
# 20 pushes from the block straight into the state
(T,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n","		for deposit in parse_deposits(config, bitcoin_height, &block) {\n			deposits.push(deposit);\n		}\n")],0),
# 21 match in withdrawals
(T,[(W,'''fn parse_withdrawals(config: &Config, block: &Block) -> Vec<Withdrawal> {
	let sbtc_wallet_address = config.sbtc_wallet_address();
	let block_height = match block.bip34_block_height() {
		Ok(height) => height as u32,
		Err(error) => panic!("Failed to get block height: {}", error),
	};
	let mut withdrawals = vec![];
	for tx in block.txdata.iter() {
		match op_return::withdrawal_request::try_parse_withdrawal_request(
			config.bitcoin_network,
			tx.clone(),
		) {
			Ok(request) if request.sbtc_wallet == sbtc_wallet_address => {
				let address = StacksAddress::consensus_deserialize(
					&mut Cursor::new(
						request.drawee_stacks_address.serialize_to_vec(),
					),
				)
				.unwrap();
				withdrawals.push(Withdrawal {
					info: WithdrawalInfo {
						txid: tx.txid(),
						amount: request.amount,
						source: PrincipalData::from(address),
						recipient: request.payee_bitcoin_address,
						block_height,
					},
					burn: None,
					fulfillment: None,
				})
			}
			_ => {}
		}
	}
	withdrawals
}

''')],0),
# 22 extend both first computed
(T,[("		deposits.extend(parse_deposits(config, bitcoin_height, &block));\n		withdrawals.extend(parse_withdrawals(config, &block));\n","		let new_deposits = parse_deposits(config, bitcoin_height, &block);\n		let mut new_withdrawals = parse_withdrawals(config, &block);\n		tracing::debug!(\"{} deposits\", new_deposits.len());\n		deposits.extend(new_deposits);\n		withdrawals.append(&mut new_withdrawals);\n")],0),
# 23 flat_map
(T,[de(".cloned()\n		.filter_map",".cloned()\n		.flat_map")],0),
# 24 into constructor
(T,[de('''				Deposit {
					info: DepositInfo {
						txid,
						amount: parsed_deposit.amount,
						recipient,
						block_height: bitcoin_height,
					},
					mint: None,
				}
''','''				let amount = parsed_deposit.amount;
				let info = DepositInfo {
					txid,
					amount,
					recipient,
					block_height: bitcoin_height,
				};
				Deposit { info, mint: None }
''')],0),
# 25 map then flatten
(T,[de(".cloned()\n		.filter_map",".cloned()\n		.map"),(".collect()\n}\n\nfn parse_withdrawals",".flatten()\n		.collect()\n}\n\nfn parse_withdrawals")],0),
]
