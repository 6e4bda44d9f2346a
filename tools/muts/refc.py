# refactorings of the command line, Uint and the rest of stacks-core: every check stays quiet
PROPS="P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P26 P31 P32 P33"
SCOPE="core"
S="stacks-core/src/"
C="sbtc-cli/src/commands/"
MUTS=[
# 0 le bytes
(S+"uint.rs",[('''		let mut buffer = vec![0; N * 8];

		self.0
			.iter()
			.flat_map(|part| part.to_le_bytes())
			.enumerate()
			.for_each(|(i, byte)| buffer[i] = byte);

		buffer''','''		self.0.iter().flat_map(|part| part.to_le_bytes()).collect()'''),('''		let mut ret = vec![0; N * 8];

		for i in 0..N {
			let word_end = N * 8 - (i * 8);
			let word_start = word_end - 8;

			ret[word_start..word_end].copy_from_slice(&self.0[i].to_be_bytes());
		}

		ret''','''		let mut ret = Vec::with_capacity(N * 8);

		for word in self.0.iter().rev() {
			ret.extend_from_slice(&word.to_be_bytes());
		}

		ret''')],0),
# 1 from le bytes by chunks
(S+"uint.rs",[('''		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_le_bytes(next_bytes);

			ret[i] = next;
		}
''','''		let mut ret = [0u64; N];
		for (word, chunk) in ret.iter_mut().zip(bytes.chunks_exact(8)) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(chunk);
			*word = u64::from_le_bytes(next_bytes);
		}
''')],0),
# 2 one length check
(S+"uint.rs",[('''		if bytes.len() % 8 != 0 {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		if bytes.len() / 8 != N {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_be_bytes(next_bytes);
''','''		if bytes.len() != N * 8 {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		let mut ret = [0u64; N];
		for i in 0..N {
			let start = 8 * i;
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[start..start + 8]);

			let next = u64::from_be_bytes(next_bytes);
'''),("			ret[(bytes.len() / 8) - 1 - i] = next;","			ret[N - 1 - i] = next;")],0),
# 3 address text
(S+"c32.rs",[('''	let address = format!("S{}", encoded);

	address''','''	["S", encoded.as_str()].concat()'''),('''	if !address.starts_with('S') || address.len() <= 5 {
		return Err(C32Error::InvalidAddress(address.to_string()));
	}

	version_check_decode(&address[1..])''','''	match address.strip_prefix('S') {
		Some(rest) if rest.len() >= 5 => version_check_decode(rest),
		_ => Err(C32Error::InvalidAddress(address.to_string())),
	}''')],0),
# 4 decode with position bookkeeping
(S+"c32.rs",[('''	for byte in input.iter() {
		if *byte == b'0' {
			decoded.push(0);
		} else {
			break;
		}
	}

	decoded.reverse();

	Ok(decoded)''','''	let zeroes = input.iter().take_while(|byte| **byte == b'0').count();
	decoded.resize(decoded.len() + zeroes, 0);

	decoded.reverse();

	Ok(decoded)''')],0),
# 5 generate
(C+"generate.rs",[('''	match &generate_args.subcommand {
		GenerateSubcommand::New => {
			let wallet = Wallet::random()?;

			serde_json::to_writer_pretty(
				stdout(),
				&value_from_wallet(&wallet, generate_args),
			)?;
		}
		GenerateSubcommand::Mnemonic { mnemonic } => {
			let wallet = Wallet::new(mnemonic)?;

			serde_json::to_writer_pretty(
				stdout(),
				&value_from_wallet(&wallet, generate_args),
			)?;
		}
	};

	Ok(())''','''	let wallet = match &generate_args.subcommand {
		GenerateSubcommand::New => Wallet::random(),
		GenerateSubcommand::Mnemonic { mnemonic } => Wallet::new(mnemonic),
	}?;

	let value = value_from_wallet(&wallet, generate_args);
	serde_json::to_writer_pretty(stdout(), &value)?;

	Ok(())'''),('''	let mut credentials: Vec<Value> = Default::default();

	for i in 0..generate_args.accounts {
		let mut creds = Map::new();
		creds.insert(
			"stacks".into(),
			value_from_credentials(
				wallet
					.credentials(generate_args.stacks_network, i as u32)
					.unwrap(),
			),
		);
		creds.insert(
			"bitcoin".into(),
			value_from_bitcoin_credentials(
				wallet
					.bitcoin_credentials(
						generate_args.bitcoin_network,
						i as u32,
					)
					.unwrap(),
			),
		);

		credentials.push(creds.into());
	}

	map.insert(
		"credentials".into(),
		credentials
			.into_iter()
			.enumerate()
			.map(|(i, creds)| (i.to_string(), creds))
			.collect::<Map<String, Value>>()
			.into(),
	);
''','''	let mut credentials = Map::new();

	for i in 0..generate_args.accounts {
		let index = i as u32;
		let stacks = wallet
			.credentials(generate_args.stacks_network, index)
			.unwrap();
		let bitcoin = wallet
			.bitcoin_credentials(generate_args.bitcoin_network, index)
			.unwrap();

		let mut creds = Map::new();
		creds.insert("bitcoin".into(), value_from_bitcoin_credentials(bitcoin));
		creds.insert("stacks".into(), value_from_credentials(stacks));
		credentials.insert(i.to_string(), Value::Object(creds));
	}

	map.insert("credentials".into(), Value::Object(credentials));
''')],0),
# 6 one helper for the three kinds
(C+"generate.rs",[('''	let mut btc_p2tr_creds = Map::new();
	btc_p2tr_creds.insert(
		"private_key".into(),
		hex::encode(creds.private_key_p2tr().secret_bytes()).into(),
	);
	btc_p2tr_creds.insert(
		"public_key".into(),
		creds.public_key_p2tr().to_string().into(),
	);
	btc_p2tr_creds
		.insert("address".into(), creds.address_p2tr().to_string().into());
	btc_p2tr_creds.insert("wif".into(), creds.wif_p2tr().to_string().into());
	btc_creds.insert("p2tr".into(), btc_p2tr_creds.into());
''','''	btc_creds.insert(
		"p2tr".into(),
		key_value(
			creds.private_key_p2tr(),
			creds.public_key_p2tr().to_string(),
			creds.address_p2tr().to_string(),
			creds.wif_p2tr().to_string(),
		),
	);
'''),('''fn value_from_bitcoin_credentials(''','''fn key_value(
	private_key: stacks_core::crypto::PrivateKey,
	public_key: String,
	address: String,
	wif: String,
) -> Value {
	serde_json::json!({
		"private_key": hex::encode(private_key.secret_bytes()),
		"public_key": public_key,
		"address": address,
		"wif": wif,
	})
}

fn value_from_bitcoin_credentials(''')],0),
# 7 deposit command
(C+"deposit.rs",[('''	let stx_recipient = PrincipalData::try_from(deposit.recipient.to_string())?;
	let sbtc_wallet_address = BitcoinAddress::from_str(&deposit.sbtc_wallet)?;

	let tx = build_deposit_transaction(
		wallet,
		stx_recipient,
		sbtc_wallet_address,
		deposit.amount,
		deposit.network,
	)?;

	serde_json::to_writer_pretty(
		stdout(),
		&utils::TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		},
	)?;

	Ok(())''','''	let tx = build_deposit_transaction(
		wallet,
		deposit.recipient.clone().try_into()?,
		deposit.sbtc_wallet.parse()?,
		deposit.amount,
		deposit.network,
	)?;

	let output = utils::TransactionData {
		hex: hex::encode(tx.serialize()),
		id: tx.txid().to_string(),
	};

	Ok(serde_json::to_writer_pretty(stdout(), &output)?)'''),("use std::{io::stdout, str::FromStr};","use std::io::stdout;"),("		psbt::serialize::Serialize, Address as BitcoinAddress,\n		Network as BitcoinNetwork, PrivateKey,","		psbt::serialize::Serialize, Network as BitcoinNetwork, PrivateKey,"),("use stacks_core::utils::PrincipalData;\n","")],0),
# 8 wallet helper
(C+"withdraw.rs",[('''	let private_key = PrivateKey::from_wif(&withdrawal.wif)?;

	let blockchain =
		ElectrumBlockchain::from_config(&ElectrumBlockchainConfig {
			url: withdrawal.node_url.as_str().to_string(),
			socks5: None,
			retry: 3,
			timeout: Some(10),
			stop_gap: 10,
			validate_domain: false,
		})?;

	let wallet = Wallet::new(
		P2Wpkh(private_key),
		Some(P2Wpkh(private_key)),
		withdrawal.network,
		MemoryDatabase::default(),
	)?;

	wallet.sync(&blockchain, SyncOptions::default())?;
''','''	let wallet = open_wallet(withdrawal)?;
'''),('''pub fn build_withdrawal_tx(''','''fn open_wallet(
	withdrawal: &WithdrawalArgs,
) -> anyhow::Result<Wallet<MemoryDatabase>> {
	let config = ElectrumBlockchainConfig {
		url: withdrawal.node_url.to_string(),
		socks5: None,
		retry: 3,
		timeout: Some(10),
		stop_gap: 10,
		validate_domain: false,
	};
	let blockchain = ElectrumBlockchain::from_config(&config)?;

	let key = PrivateKey::from_wif(&withdrawal.wif)?;
	let wallet = Wallet::new(
		P2Wpkh(key),
		Some(P2Wpkh(key)),
		withdrawal.network,
		MemoryDatabase::default(),
	)?;
	wallet.sync(&blockchain, SyncOptions::default())?;

	Ok(wallet)
}

pub fn build_withdrawal_tx('''),('''	serde_json::to_writer_pretty(
		stdout(),
		&TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		},
	)?;

	Ok(())''','''	let (id, hex) = (tx.txid().to_string(), hex::encode(tx.serialize()));
	serde_json::to_writer_pretty(stdout(), &TransactionData { id, hex })?;
	Ok(())''')],0),
# 9 broadcast
(C+"broadcast.rs",[('''	let client =
		bdk::electrum_client::Client::new(broadcast.node_url.as_str())?;
	let tx = Transaction::deserialize(&hex::decode(&broadcast.tx)?)?;

	client.transaction_broadcast(&tx)?;
	serde_json::to_writer_pretty(stdout(), &tx.txid().to_string())?;

	Ok(())''','''	let BroadcastArgs { node_url, tx } = broadcast;

	let bytes = hex::decode(tx)?;
	let tx = Transaction::deserialize(&bytes)?;
	let client = bdk::electrum_client::Client::new(node_url.as_str())?;

	let txid = client.transaction_broadcast(&tx).map(|_| tx.txid())?;
	serde_json::to_writer_pretty(stdout(), &txid.to_string())
		.map_err(anyhow::Error::from)''')],0),
]
