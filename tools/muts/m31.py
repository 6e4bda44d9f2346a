D="sbtc-cli/src/commands/deposit.rs"
W="sbtc-cli/src/commands/withdraw.rs"
B="sbtc-cli/src/commands/broadcast.rs"
M="sbtc-cli/src/main.rs"
MUTS=[
("P31",D,"		deposit.amount,\n		deposit.network,","		deposit.amount.max(546),\n		deposit.network,",1),
("P31",D,"		deposit.amount,\n		deposit.network,","		deposit.amount,\n		private_key.network,",1),
("P31",D,"		deposit.network,\n		MemoryDatabase","		private_key.network,\n		MemoryDatabase",1),
("P31",D,"BitcoinAddress::from_str(&deposit.sbtc_wallet)?","deposit.sbtc_wallet.parse::<BitcoinAddress>()?",0),
("P31",D,"BitcoinAddress::from_str(&deposit.sbtc_wallet)?","wallet.get_address(bdk::wallet::AddressIndex::New)?.address",1),
("P31",D,"	wallet.sync(&blockchain, SyncOptions::default())?;","	let _ = wallet.sync(&blockchain, SyncOptions::default());",1),
("P31",D,"PrincipalData::try_from(deposit.recipient.to_string())?","PrincipalData::try_from(deposit.recipient.clone())?",0),
("P31",D,"PrincipalData::try_from(deposit.recipient.to_string())?","PrincipalData::try_from(deposit.recipient.to_uppercase())?",1),
("P31",D,"			id: tx.txid().to_string(),","			id: tx.wtxid().to_string(),",1),
("P31",D,"			id: tx.txid().to_string(),\n			hex: hex::encode(tx.serialize()),","			hex: hex::encode(bdk::bitcoin::consensus::serialize(&tx)),\n			id: format!(\"{}\", tx.txid()),",0),
("P31",D,"			hex: hex::encode(tx.serialize()),","			hex: bdk::bitcoin::consensus::encode::serialize_hex(&tx),",0),
("P31",D,"""	serde_json::to_writer_pretty(
		stdout(),
		&utils::TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		},
	)?;
""","""	let out = utils::TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		};
	print!("{}", serde_json::to_string_pretty(&out)?);
""",0),
("P31",D,"		Some(P2Wpkh(private_key)),","		None,",0),
("P31",W,"""        payee_bitcoin_address,
        sbtc_wallet_bitcoin_address,""","""        sbtc_wallet_bitcoin_address,
        payee_bitcoin_address,""",1),
("P31",W,"""        withdrawal.amount,
        withdrawal.fulfillment_fee,""","""        withdrawal.amount - withdrawal.fulfillment_fee,
        withdrawal.fulfillment_fee,""",1),
("P31",W,"""        withdrawal.amount,
        withdrawal.fulfillment_fee,""","""        withdrawal.fulfillment_fee,
        withdrawal.amount,""",1),
("P31",W,"PrivateKey::from_wif(&withdrawal.drawee_wif)?.inner","PrivateKey::from_wif(&withdrawal.wif)?.inner",1),
("P31",W,"	wallet.sync(&blockchain, SyncOptions::default())?;","	bdk::blockchain::Blockchain::broadcast(&blockchain, &bdk::bitcoin::Transaction{version:1,lock_time:bdk::bitcoin::PackedLockTime(0),input:vec![],output:vec![]})?;\n	wallet.sync(&blockchain, SyncOptions::default())?;",1),
("P31",W,"			hex: hex::encode(tx.serialize()),","			hex: hex::encode(bdk::bitcoin::Transaction{input: vec![], ..tx.clone()}.serialize()),",1),
("P31",B,"	client.transaction_broadcast(&tx)?;\n","	client.transaction_broadcast(&tx).ok();\n",1),
("P31",B,"	client.transaction_broadcast(&tx)?;\n	serde_json::to_writer_pretty(stdout(), &tx.txid().to_string())?;","	serde_json::to_writer_pretty(stdout(), &tx.txid().to_string())?;\n	client.transaction_broadcast(&tx)?;\n",1),
("P31",B,"	client.transaction_broadcast(&tx)?;\n	serde_json::to_writer_pretty(stdout(), &tx.txid().to_string())?;","	let id = client.transaction_broadcast(&tx)?;\n	serde_json::to_writer_pretty(stdout(), &id.to_string())?;",1),
("P31",B,"	client.transaction_broadcast(&tx)?;\n","	if client.transaction_get(&tx.txid()).is_err() {\n		client.transaction_broadcast(&tx)?;\n	}\n",1),
("P31",B,"Transaction::deserialize(&hex::decode(&broadcast.tx)?)?","{\n		let bytes = hex::decode(&broadcast.tx)?;\n		bdk::bitcoin::consensus::deserialize(&bytes)?\n	}",0),
("P31",B,"Transaction::deserialize(&hex::decode(&broadcast.tx)?)?","{\n		let bytes = hex::decode(&broadcast.tx)?;\n		bdk::bitcoin::consensus::deserialize::<Transaction>(&bytes)?\n	}",0),
("P31",M,"""		Command::Deposit(deposit_args) => build_deposit_tx(&deposit_args),
		Command::Withdraw(withdrawal_args) => {
			build_withdrawal_tx(&withdrawal_args)
		}
		Command::Broadcast(broadcast_args) => broadcast_tx(&broadcast_args),
		Command::GenerateFrom(generate_args) => generate(&generate_args),
	}""","""		Command::Deposit(ref a) => build_deposit_tx(a)?,
		Command::Withdraw(ref a) => build_withdrawal_tx(a)?,
		Command::Broadcast(ref a) => broadcast_tx(a)?,
		Command::GenerateFrom(ref a) => generate(a)?,
	}
	Ok(())""",0),
]
