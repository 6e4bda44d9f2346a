D="sbtc-cli/src/commands/deposit.rs"
W="sbtc-cli/src/commands/withdraw.rs"
B="sbtc-cli/src/commands/broadcast.rs"
G="sbtc-cli/src/commands/generate.rs"
M="sbtc-cli/src/main.rs"
MUTS=[
("P33",D,"PrivateKey::from_wif(&deposit.wif)?","PrivateKey::from_wif(&deposit.wif).unwrap()",1),
("P33",W,"""	let payee_bitcoin_address =
		BitcoinAddress::from_str(&withdrawal.payee_address)?;""","""	let payee_bitcoin_address =
		BitcoinAddress::from_str(&withdrawal.payee_address).expect("address");""",1),
("P33",D,"	wallet.sync(&blockchain, SyncOptions::default())?;","	if let Err(err) = wallet.sync(&blockchain, SyncOptions::default()) {\n		eprintln!(\"{err}\");\n	}",1),
("P33",B,"	client.transaction_broadcast(&tx)?;\n","	if client.transaction_broadcast(&tx).is_err() {\n		return Ok(());\n	}\n",1),
("P33",B,"	client.transaction_broadcast(&tx)?;\n","	match client.transaction_broadcast(&tx) {\n		Ok(_) => {}\n		Err(err) => return Err(err.into()),\n	}\n",0),
("P33",B,"	client.transaction_broadcast(&tx)?;\n","	client.transaction_broadcast(&tx).map_err(|err| anyhow::anyhow!(\"could not broadcast: {err}\"))?;\n",0),
("P33",M,"		Command::Broadcast(broadcast_args) => broadcast_tx(&broadcast_args),","		Command::Broadcast(broadcast_args) => {\n			if let Err(err) = broadcast_tx(&broadcast_args) {\n				eprintln!(\"{err}\");\n			}\n			Ok(())\n		}",1),
("P33",D,"""	serde_json::to_writer_pretty(
		stdout(),""","""	let _ = serde_json::to_writer_pretty(
		stdout(),""",0),
("P33",D,"""			hex: hex::encode(tx.serialize()),
		},
	)?;
""","""			hex: hex::encode(tx.serialize()),
		},
	)
	.ok();
""",1),
("P33",G,"			let wallet = Wallet::new(mnemonic)?;","			let wallet = Wallet::new(mnemonic).or_else(|_| Wallet::random())?;",1),
("P33",D,"	let stx_recipient = PrincipalData::try_from(deposit.recipient.to_string())?;","	println!(\"{}\", deposit.amount);\n	let stx_recipient = PrincipalData::try_from(deposit.recipient.to_string())?;",1),
("P33",D,"	let stx_recipient = PrincipalData::try_from(deposit.recipient.to_string())?;","	eprintln!(\"{}\", deposit.amount);\n	let stx_recipient = PrincipalData::try_from(deposit.recipient.to_string())?;",0),
]
