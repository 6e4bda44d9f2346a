G="sbtc-cli/src/commands/generate.rs"
MUTS=[
("P26",G,"creds.wif_p2tr().to_string()","creds.wif_p2wpkh().to_string()",1),
("P26",G,'stacks_creds.insert("address".into(), creds.address().to_string().into());','stacks_creds.insert("address".into(), stacks_core::address::StacksAddress::p2pkh(stacks_core::address::AddressVersion::MainnetSingleSig, &creds.public_key()).to_string().into());',1),
("P26",G,".credentials(generate_args.stacks_network, i as u32)",".credentials(generate_args.stacks_network, (i as u32)+1)",1),
("P26",G,"						i as u32,\n					)","						(i as u16) as u32,\n					)",1),
("P26",G,"for i in 0..generate_args.accounts","for i in 0..generate_args.accounts.min(10)",1),
("P26",G,"wallet.wif(generate_args.stacks_network)","wallet.wif(stacks_core::Network::Mainnet)",1),
("P26",G,"			let wallet = Wallet::new(mnemonic)?;","			let wallet = Wallet::new(mnemonic.trim_end_matches('a'))?;",1),
("P26",G,"creds.public_key_p2pkh().to_string()","creds.public_key_p2tr().to_string()",1),
("P26",G,".map(|(i, creds)| (i.to_string(), creds))",".map(|(i, creds)| ((i+1).to_string(), creds))",1),
("P26",G,'"network_bitcoin".into(),\n		generate_args\n			.bitcoin_network','"network_bitcoin".into(),\n		generate_args\n			.stacks_network',1),
("P26",G,"hex::encode(creds.private_key().secret_bytes())","hex::encode(creds.public_key().serialize())",1),
("P26",G,"credentials\n			.into_iter()","credentials\n			.into_iter().rev()",1),
("P26",G,"""	match &generate_args.subcommand {
		GenerateSubcommand::New => {
			let wallet = Wallet::random()?;

			serde_json::to_writer_pretty(
				stdout(),
				&value_from_wallet(&wallet, generate_args),
			)?;
		}
		GenerateSubcommand::Mnemonic { mnemonic } => {
			let wallet = Wallet::new(mnemonic)?;

			serde_json::to_writer_pretty(
				stdout(),
				&value_from_wallet(&wallet, generate_args),
			)?;
		}
	};
""","""	let wallet = match &generate_args.subcommand {
		GenerateSubcommand::New => Wallet::random()?,
		GenerateSubcommand::Mnemonic { mnemonic } => Wallet::new(mnemonic)?,
	};
	serde_json::to_writer_pretty(stdout(), &value_from_wallet(&wallet, generate_args))?;
""",0),
("P26",G,"""	let mut stacks_creds = Map::new();

	stacks_creds.insert(
		"private_key".into(),
		hex::encode(creds.private_key().secret_bytes()).into(),
	);
	stacks_creds
		.insert("public_key".into(), creds.public_key().to_string().into());
	stacks_creds.insert("address".into(), creds.address().to_string().into());
	stacks_creds.insert("wif".into(), creds.wif().to_string().into());

	stacks_creds.into()
""","""	serde_json::json!({"private_key": hex::encode(creds.private_key().secret_bytes()), "public_key": creds.public_key().to_string(), "address": creds.address().to_string(), "wif": creds.wif().to_string()})
""",0),
("P26",G,"hex::encode(creds.private_key().secret_bytes())","hex::encode(creds.private_key().as_ref())",0),
("P26",G,"""		credentials
			.into_iter()
			.enumerate()
			.map(|(i, creds)| (i.to_string(), creds))
			.collect::<Map<String, Value>>()
			.into(),""","""		{ let mut all = Map::new(); for (i, c) in credentials.into_iter().enumerate() { all.insert(i.to_string(), c); } Value::Object(all) },""",0),
("P26",G,"""	let mut btc_p2pkh_creds = Map::new();
	btc_p2pkh_creds.insert(
		"private_key".into(),
		hex::encode(creds.private_key_p2pkh().secret_bytes()).into(),
	);
	btc_p2pkh_creds.insert(
		"public_key".into(),
		creds.public_key_p2pkh().to_string().into(),
	);
	btc_p2pkh_creds
		.insert("address".into(), creds.address_p2pkh().to_string().into());
	btc_p2pkh_creds.insert("wif".into(), creds.wif_p2pkh().to_string().into());
	btc_creds.insert("p2pkh".into(), btc_p2pkh_creds.into());
""","""	fn entry(key: stacks_core::crypto::PrivateKey, public: String, address: String, wif: String) -> Value {
		let mut m = Map::new();
		for (k, v) in [("private_key", hex::encode(key.secret_bytes())), ("public_key", public), ("address", address), ("wif", wif)] { m.insert(k.to_string(), Value::String(v)); }
		Value::Object(m)
	}
	btc_creds.insert("p2pkh".into(), entry(creds.private_key_p2pkh(), creds.public_key_p2pkh().to_string(), creds.address_p2pkh().to_string(), creds.wif_p2pkh().to_string()));
""",0),
]
