SCOPE="core"
PROPS="P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P26 P31 P32 P33"
CN="stacks-core/src/contract_name.rs"
C="stacks-core/src/c32.rs"
K="stacks-core/src/codec.rs"
WA="stacks-core/src/wallet.rs"
WI="stacks-core/src/crypto/wif.rs"
CR="stacks-core/src/crypto/mod.rs"
H1="stacks-core/src/crypto/hash160.rs"
DD="sbtc-core/src/operations/commit_reveal/deposit.rs"
DU="sbtc-core/src/operations/commit_reveal/utils.rs"
DW="sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"
OM="sbtc-core/src/operations/mod.rs"
OU="sbtc-core/src/operations/op_return/utils.rs"
WF="sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"
MUTS=[
# 0 name: regex tested first with early return
(CN,[('''		if contract_name.len() < CONTRACT_MIN_NAME_LENGTH
			&& contract_name.len() > CONTRACT_MAX_NAME_LENGTH
		{
			Err(ContractNameError::InvalidLength)
		} else if CONTRACT_NAME_REGEX.is_match(contract_name) {
			Ok(Self(contract_name.to_string()))
		} else {
			Err(ContractNameError::InvalidFormat)
		}
''','''		if !CONTRACT_NAME_REGEX.is_match(contract_name) {
			return Err(ContractNameError::InvalidFormat);
		}

		Ok(Self(contract_name.to_owned()))
''')],0),
# 1 name: serialized in one write
(CN,[('''		dest.write_all(&[self.len() as u8])?;
		dest.write_all(self.as_bytes())
''','''		let mut bytes = Vec::with_capacity(self.0.len() + 1);
		bytes.push(self.0.len() as u8);
		bytes.extend_from_slice(self.0.as_bytes());

		dest.write_all(&bytes)
''')],0),
# 2 name: and_then chain when reading
(CN,[('''		let contract_name_string = String::from_utf8(name_buffer)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		Self::new(&contract_name_string)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))
''','''		let contract_name = match std::str::from_utf8(&name_buffer) {
			Ok(contract_name) => contract_name,
			Err(err) => {
				return Err(io::Error::new(io::ErrorKind::InvalidData, err))
			}
		};

		Self::try_from(contract_name)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))
''')],0),
# 3 c32 encode: helper symbol + for loop with while let
(C,[('''pub fn encode(data: impl AsRef<[u8]>) -> String {''','''fn symbol(value: u32) -> u8 {
	C32_ALPHABET[(value & 0x1F) as usize]
}

/// C32 encode the given data
pub fn encode(data: impl AsRef<[u8]>) -> String {'''),('''			encoded.push(C32_ALPHABET[(buffer & 0x1F) as usize]);
			buffer >>= 5;''','''			encoded.push(symbol(buffer));
			buffer >>= 5;'''),('''	if bits > 0 {
		encoded.push(C32_ALPHABET[(buffer & 0x1F) as usize]);
	}''','''	if bits > 0 {
		encoded.push(symbol(buffer));
	}''')],0),
# 4 c32 encode: trailing zeros via while last
(C,[('''	while let Some(i) = encoded.pop() {
		if i != C32_ALPHABET[0] {
			encoded.push(i);
			break;
		}
	}

	for i in data {
		if *i == 0 {
			encoded.push(C32_ALPHABET[0]);
		} else {
			break;
		}
	}
''','''	while encoded.last() == Some(&C32_ALPHABET[0]) {
		encoded.pop();
	}

	for _ in data.iter().take_while(|byte| **byte == 0) {
		encoded.push(C32_ALPHABET[0]);
	}
''')],0),
# 5 c32 decode: match instead of let else
(C,[('''		let Some(bits) = C32_BYTE_MAP.get(*byte as usize).unwrap() else {
			return Err(C32Error::InvalidChar(*byte as char));
		};

		carry |= (u16::from(*bits)) << carry_bits;''','''		let bits = match C32_BYTE_MAP[*byte as usize] {
			Some(bits) => bits as u16,
			None => return Err(C32Error::InvalidChar(*byte as char)),
		};

		carry |= bits << carry_bits;''')],0),
# 6 version_check_encode: push_str into a new string
(C,[('''	let mut encoded = encode(&buffer[1..]);
	encoded.insert(0, C32_ALPHABET[version as usize] as char);

	encoded
''','''	let symbol = C32_ALPHABET[version as usize] as char;

	format!("{}{}", symbol, encode(&buffer[1..]))
''')],0),
# 7 version_check_encode: one chain for the buffer
(C,[('''	let mut buffer = vec![version as u8];
	buffer.extend_from_slice(data);

	let checksum = DoubleSha256Hasher::new(&buffer).checksum();
	buffer.extend_from_slice(&checksum);

	let mut encoded = encode(&buffer[1..]);
''','''	let mut checked = Vec::with_capacity(data.len() + 1);
	checked.push(version as u8);
	checked.extend(data.iter().copied());

	let checksum = DoubleSha256Hasher::new(&checked).checksum();

	let mut payload = data.to_vec();
	payload.extend(checksum);

	let mut encoded = encode(payload);
''')],0),
# 8 version_check_decode: helper for the checksum
(C,[('''/// C32 decode the given data with a version check
''','''fn checksum_of(version: u8, data: &[u8]) -> [u8; 4] {
	let mut buffer = vec![version];
	buffer.extend_from_slice(data);

	DoubleSha256Hasher::new(buffer).checksum()
}

/// C32 decode the given data with a version check
'''),('''	let mut buffer_to_check = vec![decoded_version_byte];
	buffer_to_check.extend_from_slice(data_bytes);

	let computed_checksum = DoubleSha256Hasher::new(buffer_to_check).checksum();
''','''	let computed_checksum = checksum_of(decoded_version_byte, data_bytes);
''')],0),
# 9 version_check_decode: version converted before the checksum (order of errors differs only)
(C,[('''	let decoded_version_bytes = decode(encoded_version_bytes)?;
	let decoded_version_byte = *decoded_version_bytes
		.first()
		.ok_or(C32Error::InvalidC32)?;
''','''	let decoded_version_byte = match decode(encoded_version_bytes)?.first() {
		Some(byte) => *byte,
		None => return Err(C32Error::InvalidC32),
	};
'''),('''	Ok((
		decoded_version_byte
			.try_into()
			.map_err(|_| C32Error::InvalidVersion(decoded_version_byte))?,
		data_bytes.to_vec(),
	))
''','''	match AddressVersion::try_from(decoded_version_byte) {
		Ok(version) => Ok((version, data_bytes.to_vec())),
		Err(_) => Err(C32Error::InvalidVersion(decoded_version_byte)),
	}
''')],0),
# 10 decode_address: strip_prefix
(C,[('''	if !address.starts_with('S') || address.len() <= 5 {
		return Err(C32Error::InvalidAddress(address.to_string()));
	}

	version_check_decode(&address[1..])
''','''	match address.strip_prefix('S') {
		Some(rest) if rest.len() > 4 => version_check_decode(rest),
		_ => Err(C32Error::InvalidAddress(address.to_string())),
	}
''')],0),
# 11 encode_address: String push
(C,[('''	let encoded = version_check_encode(version, data);
	let address = format!("S{}", encoded);

	address
''','''	let mut address = String::from("S");
	address.push_str(&version_check_encode(version, data));

	address
''')],0),
# 12 codec: Amount through u64
(K,[('''		dest.write_all(&self.to_sat().to_be_bytes())
''','''		self.to_sat().codec_serialize(dest)
'''),('''		let mut buffer = [0; 8];
		data.read_exact(&mut buffer)?;

		Ok(Self::from_sat(u64::from_be_bytes(buffer)))
''','''		u64::codec_deserialize(data).map(Self::from_sat)
''')],0),
# 13 codec: signature in one 65 byte buffer
(K,[('''		dest.write_all(&[id])?;
		dest.write_all(&signature)
''','''		let mut bytes = [0u8; 65];
		bytes[0] = id;
		bytes[1..].copy_from_slice(&signature);

		dest.write_all(&bytes)
'''),('''		let mut id_buffer = [0; 1];
		data.read_exact(&mut id_buffer)?;

		let id = RecoveryId::from_i32(id_buffer[0] as i32)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		let mut signature_buffer = [0; 64];
		data.read_exact(&mut signature_buffer)?;

		Self::from_compact(&signature_buffer, id)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))
''','''		let mut bytes = [0; 65];
		data.read_exact(&mut bytes)?;

		let id = RecoveryId::from_i32(i32::from(bytes[0]))
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		Self::from_compact(&bytes[1..], id)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))
''')],0),
# 14 codec: serialize_to_vec with expect and with_capacity
(K,[('''		let mut buffer = vec![];

		self.serialize(&mut buffer).unwrap();

		buffer
''','''		let mut buffer = Vec::with_capacity(64);

		self.codec_serialize(&mut buffer)
			.expect("Writing to memory does not fail");

		buffer
''')],0),
# 15 wallet: purposes as a value
(WA,[('''	let mut path = "m/".to_string();

	match kind {
		BitcoinAddressType::P2pkh => path.push_str("44'/"),
		BitcoinAddressType::P2wpkh => path.push_str("84'/"),
		BitcoinAddressType::P2tr => path.push_str("86'/"),
		_ => {
			return Err(StacksError::InvalidArguments(
				"Invalid Bitcoin addres type",
			))
		}
	};

	match network {
		BitcoinNetwork::Bitcoin => path.push_str("0'/"),
		_ => path.push_str("1'/"),
	}

	path.push_str(&format!("{}'/0/0", index));

	Ok(DerivationPath::from_str(&path)?)
''','''	let purpose = match kind {
		BitcoinAddressType::P2pkh => 44,
		BitcoinAddressType::P2wpkh => 84,
		BitcoinAddressType::P2tr => 86,
		_ => {
			return Err(StacksError::InvalidArguments(
				"Invalid Bitcoin addres type",
			))
		}
	};

	let coin = if network == BitcoinNetwork::Bitcoin { 0 } else { 1 };

	let path = format!("m/{}'/{}'/{}'/0/0", purpose, coin, index);

	Ok(DerivationPath::from_str(&path)?)
''')],0),
# 16 wallet: helper for the bitcoin private key
(WA,[('''		let private_key_p2pkh = derive_key(
			master_key,
			bitcoin_derivation_path(network, BitcoinAddressType::P2pkh, index)?,
		)
		.to_priv()
		.inner;

		let private_key_p2wpkh = derive_key(
			master_key,
			bitcoin_derivation_path(
				network,
				BitcoinAddressType::P2wpkh,
				index,
			)?,
		)
		.to_priv()
		.inner;

		let private_key_p2tr = derive_key(
			master_key,
			bitcoin_derivation_path(network, BitcoinAddressType::P2tr, index)?,
		)
		.to_priv()
		.inner;

		Ok(Self {
			network,
			private_key_p2pkh,
			private_key_p2wpkh,
			private_key_p2tr,
		})
''','''		let private_key = |kind| -> StacksResult<PrivateKey> {
			let path = bitcoin_derivation_path(network, kind, index)?;

			Ok(derive_key(master_key, path).private_key)
		};

		Ok(Self {
			private_key_p2tr: private_key(BitcoinAddressType::P2tr)?,
			private_key_p2pkh: private_key(BitcoinAddressType::P2pkh)?,
			private_key_p2wpkh: private_key(BitcoinAddressType::P2wpkh)?,
			network,
		})
''')],0),
# 17 wallet: mnemonic made without helper new
(WA,[('''		let mnemonic = Mnemonic::from_str(mnemonic.as_ref())?;

		// Bitcoin network is irrelevant for extended private keys
		let master_key = ExtendedPrivKey::new_master(
			BitcoinNetwork::Bitcoin,
			&mnemonic.to_seed(""),
		)?;
''','''		let mnemonic: Mnemonic = mnemonic.as_ref().parse()?;
		let seed = mnemonic.to_seed("");

		// Bitcoin network is irrelevant for extended private keys
		let master_key =
			ExtendedPrivKey::new_master(BitcoinNetwork::Bitcoin, &seed)?;
''')],0),
# 18 wallet: credentials in steps, version by helper
(WA,[('''		let private_key =
			derive_key(master_key, stacks_derivation_path(index)?)
				.to_priv()
				.inner;

		Ok(Self {
			network,
			private_key,
		})
''','''		let path = stacks_derivation_path(index)?;
		let key = derive_key(master_key, path);

		Ok(Self {
			network,
			private_key: key.private_key,
		})
'''),('''		let version = match self.network {
			Network::Mainnet => AddressVersion::MainnetSingleSig,
			Network::Testnet => AddressVersion::TestnetSingleSig,
		};
''','''		let version = if matches!(self.network(), Network::Mainnet) {
			AddressVersion::MainnetSingleSig
		} else {
			AddressVersion::TestnetSingleSig
		};
''')],0),
# 19 wif: built as a vector
(WI,[('''		let mut bytes = [0u8; WIF_LENGTH];
		bytes[0] = WIFPrefix::from(network) as u8;
		bytes[1..33].copy_from_slice(&private_key.secret_bytes());
		bytes[33] = 0x01;

		let bytes_to_hash = bytes[..34].to_vec();
		bytes[34..].copy_from_slice(
			&DoubleSha256Hasher::new(bytes_to_hash).as_bytes()[..4],
		);

		Self(bytes)
''','''		let mut bytes = Vec::with_capacity(WIF_LENGTH);
		bytes.push(WIFPrefix::from(network) as u8);
		bytes.extend_from_slice(&private_key.secret_bytes());
		bytes.push(0x01);

		let checksum = DoubleSha256Hasher::new(&bytes).checksum();
		bytes.extend_from_slice(&checksum);

		Self(bytes.try_into().unwrap())
''')],0),
# 20 wif: validation by early returns
(WI,[('''		let valid_network_byte =
			WIFPrefix::iter().any(|prefix| prefix as u8 == self.0[0]);
		let valid_private_key = PrivateKey::from_slice(&self.0[1..33]).is_ok();
		let valid_compression_byte = self.0[33] == 0x01;
		let valid_checksum = DoubleSha256Hasher::new(&self.0[..34]).as_ref()
			[..4] == self.0[34..];

		if valid_network_byte
			&& valid_private_key
			&& valid_compression_byte
			&& valid_checksum
		{
			Ok(())
		} else {
			Err(StacksError::InvalidData("WIF is invalid".into()))
		}
''','''		let invalid = || StacksError::InvalidData("WIF is invalid".into());
		let checksum = DoubleSha256Hasher::new(&self.0[..34]).checksum();

		if checksum[..] != self.0[34..] {
			return Err(invalid());
		}

		if WIFPrefix::from_repr(self.0[0]).is_none() || self.0[33] != 1 {
			return Err(invalid());
		}

		PrivateKey::from_slice(&self.0[1..33])
			.map(|_| ())
			.map_err(|_| invalid())
''')],0),
# 21 wif: network by if, no second validation
(WI,[('''		let wif = Self::from_bytes(base58::from(&value)?)?;
		wif.validate()?;

		Ok(wif)
''','''		Self::from_bytes(base58::from(&value)?)
''')],0),
# 22 hashing: checksum copied
(CR,[('''		self.as_bytes()[0..CHECKSUM_LENGTH].try_into().unwrap()
''','''		let mut checksum = [0; CHECKSUM_LENGTH];
		checksum.copy_from_slice(&self.as_bytes()[..CHECKSUM_LENGTH]);

		checksum
''')],0),
# 23 hash160: two named steps, streaming hasher
(H1,[('''		Self(Ripemd160::digest(Sha256Hasher::new(data)).into())
''','''		let inner = Sha256Hasher::hash(data);
		let outer = Ripemd160::digest(inner.as_bytes());

		Self(outer.into())
''')],0),
# 24 commit deposit: opcode compared through its byte
(DD,[('''		if !matches!(opcode, Opcode::Deposit) {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode, expected deposit",
			));
		}

		let principal = PrincipalData::codec_deserialize(data)?;
		let reveal_fee = Amount::codec_deserialize(data)?;

		Ok(Self {
			principal,
			reveal_fee,
		})
''','''		match opcode {
			Opcode::Deposit => Ok(Self {
				principal: PrincipalData::codec_deserialize(data)?,
				reveal_fee: Amount::codec_deserialize(data)?,
			}),
			_ => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode, expected deposit",
			)),
		}
''')],0),
# 25 commit deposit: output prepared first
(DD,[('''	let mut tx = reveal(&deposit_data.serialize_to_vec(), reveal_inputs)?;

	tx.output.push(TxOut {
		value: (commit_amount - deposit_data.reveal_fee).to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});

	Ok(tx)
''','''	let data = deposit_data.serialize_to_vec();
	let amount = commit_amount - deposit_data.reveal_fee;

	reveal(&data, reveal_inputs).map(|mut tx| {
		let script_pubkey = sbtc_wallet_address.script_pubkey();
		tx.output.extend([TxOut {
			value: amount.to_sat(),
			script_pubkey,
		}]);
		tx
	})
''')],0),
# 26 commit utils: op_return bytes as an array
(DU,[('''	let op_return_bytes: Vec<u8> = stacks_magic_bytes
		.iter()
		.cloned()
		.chain(once(b'w'))
		.collect();
''','''	let _ = once(());
	let op_return_bytes = [stacks_magic_bytes[0], stacks_magic_bytes[1], b'w'];
''')],0),
# 27 commit utils: witness from vec, script borrowed
(DU,[('''	let mut witness = Witness::new();
	witness.push(script);
	witness.push(control_block.serialize());
''','''	let witness = Witness::from_vec(vec![
		script.into_bytes(),
		control_block.serialize(),
	]);
''')],0),
# 28 commit utils: transaction in parts
(DU,[('''	let tx = Transaction {
		version: 2,
		lock_time: PackedLockTime::ZERO,
		input: vec![TxIn {
			previous_output: commit_output,
			script_sig: Script::new(),
			sequence: Sequence::MAX,
			witness,
		}],
		output: vec![TxOut {
			value: 0,
			script_pubkey: reveal_op_return_script(stacks_magic_bytes),
		}],
	};

	Ok(tx)
''','''	let input = TxIn {
		previous_output: commit_output,
		script_sig: Script::default(),
		sequence: Sequence(0xFFFFFFFF),
		witness,
	};

	let mut output = Vec::new();
	output.push(TxOut {
		script_pubkey: reveal_op_return_script(stacks_magic_bytes),
		value: 0,
	});

	Ok(Transaction {
		lock_time: PackedLockTime(0),
		version: 2,
		output,
		input: vec![input],
	})
''')],0),
# 29 commit utils: commit with map
(DU,[('''	let spend_info = taproot_spend_info(data, revealer_key, reclaim_key)?;
	Ok(address_from_taproot_spend_info(spend_info))
''','''	taproot_spend_info(data, revealer_key, reclaim_key)
		.map(address_from_taproot_spend_info)
''')],0),
# 30 commit withdrawal: one extend, fee subtracted in other order
(DW,[('''	tx.output.push(TxOut {
		value: (commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)
			.to_sat(),
		script_pubkey: recipient_wallet_address.script_pubkey(),
	});
	tx.output.push(TxOut {
		value: fulfillment_fee.to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});

	Ok(tx)
''','''	let amount = commit_amount - withdrawal_data.reveal_fee - fulfillment_fee;

	let payouts = [
		(amount, recipient_wallet_address),
		(fulfillment_fee, sbtc_wallet_address),
	];

	for (amount, address) in payouts {
		tx.output.push(TxOut {
			value: amount.to_sat(),
			script_pubkey: address.script_pubkey(),
		});
	}

	Ok(tx)
''')],0),
# 31 opcode: match on the byte
(OM,[('''		Self::from_repr(buffer[0])
			.ok_or(io::Error::new(io::ErrorKind::InvalidData, "Invalid opcode"))
''','''		match buffer[0] {
			b'<' => Ok(Self::Deposit),
			b'>' => Ok(Self::WithdrawalRequest),
			b'!' => Ok(Self::WithdrawalFulfillment),
			b'H' => Ok(Self::WalletHandoff),
			_ => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode",
			)),
		}
''')],0),
# 32 magic bytes: byte strings
(OM,[('''		Network::Bitcoin => [b'X', b'2'],
		Network::Testnet => [b'T', b'2'],
		_ => [b'i', b'd'],
''','''		Network::Bitcoin => *b"X2",
		Network::Testnet => *b"T2",
		Network::Signet | Network::Regtest => *b"id",
''')],0),
# 33 reorder: match instead of and_then; sort stable by key
(OU,[('''			let idx = indices
				.get_mut(&(txout.script_pubkey.clone(), txout.value))
				.and_then(VecDeque::pop_front)
				.unwrap_or(usize::MAX); // Change amount

			(idx, txout)
''','''			let key = (txout.script_pubkey.clone(), txout.value);
			let place = match indices.get_mut(&key) {
				Some(places) => places.pop_front(),
				None => None,
			};

			(place.unwrap_or(usize::MAX), txout)
'''),('''	outputs_ordered.sort_by_key(|(idx, _)| *idx);
''','''	outputs_ordered.sort_by(|(a, _), (b, _)| a.cmp(b));
''')],0),
# 34 fulfillment: network by match instead of a map
(WF,[('''		let network_magic_bytes = [
			BitcoinNetwork::Bitcoin,
			BitcoinNetwork::Testnet,
			BitcoinNetwork::Signet,
			BitcoinNetwork::Regtest,
		]
		.into_iter()
		.map(|network| (magic_bytes(network), network))
		.collect::<HashMap<[u8; 2], BitcoinNetwork>>();

		let network = network_magic_bytes
			.get(&magic_bytes_buffer)
			.cloned()
			.ok_or(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			))?;
''','''		let _: HashMap<u8, u8> = HashMap::new();
		let network = [
			BitcoinNetwork::Bitcoin,
			BitcoinNetwork::Testnet,
			BitcoinNetwork::Regtest,
		]
		.into_iter()
		.find(|network| magic_bytes(*network) == magic_bytes_buffer)
		.ok_or_else(|| {
			io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			)
		})?;
''')],0),
# 35 fulfillment: opcode serialized through its codec, one read for the tip
(WF,[('''		dest.write_all(&[Opcode::WithdrawalFulfillment as u8])?;
		self.chain_tip.codec_serialize(dest)
''','''		Opcode::WithdrawalFulfillment.codec_serialize(dest)?;
		self.chain_tip.codec_serialize(dest)
'''),('''		let chain_tip = BlockId::codec_deserialize(data)?;

		Ok(Self { network, chain_tip })
''','''		BlockId::codec_deserialize(data)
			.map(|chain_tip| Self { network, chain_tip })
''')],0),
# 36 fulfillment: psbt with match on finish, set_recipients
(WF,[('''	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
''','''	outputs.iter().for_each(|(script, amount)| {
		tx_builder.add_recipient(script.clone(), *amount);
	});
''')],0),
# 37 fulfillment: outputs built inside out
(WF,[('''	let data = ParsedWithdrawalFulfillmentData {
		network: bitcoin_network,
		chain_tip: stacks_chain_tip,
	};

	let data_script = build_op_return_script(&data.serialize_to_vec());
	let recipient_script = recipient_bitcoin_address.script_pubkey();

	Ok([(data_script, 0), (recipient_script, amount)])
''','''	let payout = (recipient_bitcoin_address.script_pubkey(), amount);

	let bytes = ParsedWithdrawalFulfillmentData {
		chain_tip: stacks_chain_tip,
		network: bitcoin_network,
	}
	.serialize_to_vec();

	Ok([(build_op_return_script(bytes.as_slice()), 0), payout])
''')],0),
]
