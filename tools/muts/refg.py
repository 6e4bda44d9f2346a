SCOPE="core"
PROPS="P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P26 P31 P32 P33"
W="sbtc-core/src/operations/op_return/withdrawal_request.rs"
D="sbtc-core/src/operations/op_return/deposit.rs"
U="stacks-core/src/uint.rs"
A="stacks-core/src/address.rs"
L="stacks-core/src/utils.rs"
C="stacks-core/src/c32.rs"
BE='''		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_be_bytes(next_bytes);

			ret[(bytes.len() / 8) - 1 - i] = next;
		}

		Ok(Self(ret))
'''
MUTS=[
# 0 parse withdrawal: outputs by index
(W,[('''	let mut output_iter = tx.output.into_iter();

	let data_output = output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;
''','''	let data_output =
		tx.output.get(0).ok_or(SBTCError::NotSBTCOperation)?;
'''),('''		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;

	let recipient_address''','''		tx.output.get(1).ok_or(SBTCError::NotSBTCOperation)?;

	let recipient_address'''),('''		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;

	let sbtc_wallet''','''		tx.output.get(2).ok_or(SBTCError::NotSBTCOperation)?;

	let sbtc_wallet''')],0),
# 1 data helper
(W,[('''	let mut instructions_iter = data_output.script_pubkey.instructions();

	let Some(Ok(Instruction::Op(OP_RETURN))) = instructions_iter.next() else {
		return Err(SBTCError::NotSBTCOperation);
	};

	let Some(Ok(Instruction::PushBytes(mut data))) = instructions_iter.next()
	else {
		return Err(SBTCError::NotSBTCOperation);
	};

	let withdrawal_data =
		WithdrawalRequestDataOutputData::codec_deserialize(&mut data)
			.map_err(|_| SBTCError::NotSBTCOperation)?;
''','''	let withdrawal_data = parse_data(&data_output.script_pubkey)
		.ok_or(SBTCError::NotSBTCOperation)?;
'''),('''/// Withdrawal request transaction data
''','''fn parse_data(script: &Script) -> Option<WithdrawalRequestDataOutputData> {
	let mut instructions = script.instructions();

	match instructions.next()?.ok()? {
		Instruction::Op(OP_RETURN) => (),
		_ => return None,
	}

	match instructions.next()?.ok()? {
		Instruction::PushBytes(mut data) => {
			WithdrawalRequestDataOutputData::codec_deserialize(&mut data).ok()
		}
		Instruction::Op(_) => None,
	}
}

/// Withdrawal request transaction data
''')],0),
# 2 version helper
(W,[('''	let drawee_stacks_address_version = match network {
		BitcoinNetwork::Bitcoin => StacksAddressVersion::MainnetSingleSig,
		_ => StacksAddressVersion::TestnetSingleSig,
	};
	let drawee_stacks_address = StacksAddress::from_public_key(
		drawee_stacks_address_version,
		&drawee_stacks_public_key,
	);
''','''	let version = if network == BitcoinNetwork::Bitcoin {
		StacksAddressVersion::MainnetSingleSig
	} else {
		StacksAddressVersion::TestnetSingleSig
	};
	let drawee_stacks_address =
		StacksAddress::p2pkh(version, &drawee_stacks_public_key);
''')],0),
# 3 reading the outputs before recovering
(W,[('''	let drawee_stacks_public_key = recover_signature(
		withdrawal_data.amount(),
		&recipient_address,
		&withdrawal_data.signature(),
	)?;
''',''),('''	let drawee_stacks_address = StacksAddress::from_public_key(''','''	let amount = withdrawal_data.amount();
	let signature = withdrawal_data.signature();
	let drawee_stacks_public_key =
		recover_signature(amount, &recipient_address, &signature)?;
	let drawee_stacks_address = StacksAddress::from_public_key('''),('''		amount: withdrawal_data.amount(),
		signature: withdrawal_data.signature(),
''','''		amount,
		signature,
''')],0),
# 4 struct destructured
(W,[('''	Ok(WithdrawalRequestData {
		payee_bitcoin_address: recipient_address,
		drawee_stacks_address,
		amount: withdrawal_data.amount(),
		signature: withdrawal_data.signature(),
''','''	let WithdrawalRequestDataOutputData {
		amount, signature, ..
	} = withdrawal_data;

	Ok(WithdrawalRequestData {
		payee_bitcoin_address: recipient_address,
		drawee_stacks_address,
		amount,
		signature,
''')],0),
# 5 builder by for_each
(W,[('''	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
''','''	outputs.iter().cloned().for_each(|(script, amount)| {
		tx_builder.add_recipient(script, amount);
	});
''')],0),
# 6 sign in create (helper)
(W,[('''	let mut psbt = create_psbt(''','''	let psbt = create_psbt('''),('''	wallet
		.sign(&mut psbt, SignOptions::default())
		.map_err(|err| {
			SBTCError::BDKError("Could not sign withdrawal transaction", err)
		})?;

	Ok(psbt.extract_tx())
}
''','''	sign(wallet, psbt)
}

fn sign<D: BatchDatabase>(
	wallet: &Wallet<D>,
	mut psbt: PartiallySignedTransaction,
) -> SBTCResult<Transaction> {
	match wallet.sign(&mut psbt, SignOptions::default()) {
		Ok(_) => Ok(psbt.extract_tx()),
		Err(err) => Err(SBTCError::BDKError(
			"Could not sign withdrawal transaction",
			err,
		)),
	}
}
''')],0),
# 7 data in a variable
(W,[('''	let op_return_script = build_op_return_script(
		&WithdrawalRequestDataOutputData::new(
			payee_bitcoin_address,
			drawee_stacks_private_key,
			amount,
			network,
		)
		.serialize_to_vec(),
	);

	let outputs = [
		(op_return_script, 0),
		(recipient_script, recipient_dust_amount),
		(sbtc_wallet_script, fulfillment_amount),
	];

	Ok(outputs)
''','''	let data = WithdrawalRequestDataOutputData::new(
		payee_bitcoin_address,
		drawee_stacks_private_key,
		amount,
		network,
	);
	let data_output = (build_op_return_script(&data.serialize_to_vec()), 0);
	let recipient_output = (recipient_script, recipient_dust_amount);
	let wallet_output = (sbtc_wallet_script, fulfillment_amount);

	Ok([data_output, recipient_output, wallet_output])
''')],0),
# 8 serialize via Vec
(W,[('''		dest.write_all(&magic_bytes(self.network))?;
		dest.write_all(&[Opcode::WithdrawalRequest as u8])?;
		self.amount.codec_serialize(dest)?;
		self.signature.codec_serialize(dest)
''','''		let mut bytes = magic_bytes(self.network).to_vec();
		bytes.push(Opcode::WithdrawalRequest as u8);
		bytes.extend(self.amount.serialize_to_vec());
		bytes.extend(self.signature.serialize_to_vec());

		dest.write_all(&bytes)
''')],0),
# 9 deposit parse: recipient first
(D,[('''		let amount = amount_output.value;
		let address =
			BitcoinAddress::from_script(&amount_output.script_pubkey, network)?;

		Ok(Self {
			amount,
			recipient: deposit_data.recipient,
			sbtc_wallet_address: address,
			network,
		})
''','''		let DepositOutputData { recipient, .. } = deposit_data;
		let sbtc_wallet_address =
			match BitcoinAddress::from_script(&amount_output.script_pubkey, network) {
				Ok(address) => address,
				Err(err) => return Err(err.into()),
			};

		Ok(Self {
			amount: amount_output.value,
			recipient,
			sbtc_wallet_address,
			network,
		})
''')],0),
# 10 deposit parse with slice pattern
(D,[('''		let mut output_iter = tx.output.into_iter();

		let data_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;
''','''		let Some((data_output, others)) = tx.output.split_first() else {
			return Err(DepositParseError::InvalidOutputs);
		};
'''),('''		let amount_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;
''','''		let amount_output =
			others.first().ok_or(DepositParseError::InvalidOutputs)?;
''')],0),
# 11 opcode compare by == on u8
(D,[('''		if !matches!(opcode, Opcode::Deposit) {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Invalid opcode, expected deposit: {:?}", opcode),
			));
		}
''','''		match opcode {
			Opcode::Deposit => (),
			other => {
				return Err(io::Error::new(
					io::ErrorKind::InvalidData,
					format!("Invalid opcode, expected deposit: {:?}", other),
				));
			}
		}
''')],0),
# 12 dust first
(D,[('''	let mut tx_builder = wallet.build_tx();

	let deposit_data =
		DepositOutputData { network, recipient }.serialize_to_vec();
	let op_return_script = build_op_return_script(&deposit_data);

	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = sbtc_wallet_script.dust_value().to_sat();

	if amount < dust_amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let outputs = [(op_return_script, 0), (sbtc_wallet_script, amount)];
''','''	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = sbtc_wallet_script.dust_value().to_sat();

	if dust_amount > amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let data = DepositOutputData { network, recipient };
	let outputs = [
		(build_op_return_script(&data.serialize_to_vec()), 0),
		(sbtc_wallet_script, amount),
	];
	let mut tx_builder = wallet.build_tx();
''')],0),
# 13 to_be_bytes by rev flat_map
(U,[('''		let mut ret = vec![0; N * 8];

		for i in 0..N {
			let word_end = N * 8 - (i * 8);
			let word_start = word_end - 8;

			ret[word_start..word_end].copy_from_slice(&self.0[i].to_be_bytes());
		}

		ret
''','''		self.0
			.iter()
			.rev()
			.flat_map(|word| word.to_be_bytes())
			.collect()
''')],0),
# 14 to_be_bytes by reversing le
(U,[('''		let mut ret = vec![0; N * 8];

		for i in 0..N {
			let word_end = N * 8 - (i * 8);
			let word_start = word_end - 8;

			ret[word_start..word_end].copy_from_slice(&self.0[i].to_be_bytes());
		}

		ret
''','''		let mut bytes = self.to_le_bytes();
		bytes.reverse();

		bytes
''')],0),
# 15 from_be_bytes with chunks rev
(U,[(BE,'''		let mut ret = [0u64; N];

		for (word, chunk) in ret.iter_mut().rev().zip(bytes.chunks_exact(8)) {
			*word = u64::from_be_bytes(chunk.try_into().unwrap());
		}

		Ok(Self(ret))
''')],0),
# 16 from_be_bytes through le
(U,[(BE,'''		let reversed: Vec<u8> = bytes.iter().rev().copied().collect();

		Self::from_le_bytes(reversed)
''')],0),
# 17 to_le_bytes collect
(U,[('''		let mut buffer = vec![0; N * 8];

		self.0
			.iter()
			.flat_map(|part| part.to_le_bytes())
			.enumerate()
			.for_each(|(i, byte)| buffer[i] = byte);

		buffer
''','''		let mut buffer = Vec::with_capacity(N * 8);

		for word in self.0 {
			buffer.extend_from_slice(&word.to_le_bytes());
		}

		buffer
''')],0),
# 18 length check helper
(U,[('''		if bytes.len() % 8 != 0 {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		if bytes.len() / 8 != N {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_le_bytes''','''		Self::check_length(bytes)?;

		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_le_bytes'''),('''	/// Convert to a little-endian hex string
''','''	fn check_length(bytes: &[u8]) -> StacksResult<()> {
		if bytes.len() == N * 8 {
			Ok(())
		} else {
			Err(StacksError::InvalidUintBytes(bytes.len()))
		}
	}

	/// Convert to a little-endian hex string
''')],0),
# 19 try_from vec
(U,[('''		Ok(Self(value.as_slice().try_into()?))''','''		let words: [u64; N] = value.as_slice().try_into()?;

		Ok(Self(words))''')],0),
# 20 hash by chunks
(U,[('''		let buffer: [u8; SHA256_LENGTH] = value.as_bytes().try_into().unwrap();

		let mut ret: [u64; 4] = unsafe { transmute(buffer) };
		for x in ret.iter_mut() {
			*x = x.to_le();
		}

		Uint256::from_u64_array(ret)
''','''		Uint256::from_le_bytes(value.as_bytes()).unwrap()
''')],0),
# 21 p2wsh collects keys
(A,[('''	let mut script = vec![];
	let mut key_count = 0;

	script.push(signature_threshold as u8 + 80);

	for pub_key in pub_keys {
		let bytes = pub_key.serialize();

		script.push(bytes.len() as u8);
		script.extend_from_slice(&bytes);
		key_count += 1;
	}

	script.push(key_count + 80);
	script.push(174);
''','''	let keys: Vec<_> = pub_keys.into_iter().collect();
	let mut script = vec![signature_threshold as u8 + 80];

	for key in &keys {
		let bytes = PublicKey::serialize(key);

		script.push(bytes.len() as u8);
		script.extend(bytes);
	}

	script.extend([keys.len() as u8 + 80, 174]);
''')],0),
# 22 p2wsh buffer by helper shared with p2wpkh
(A,[('''	let key_hash_len = key_hash.len();

	let mut buff = Vec::with_capacity(key_hash_len + 2);
	buff.push(0);
	buff.push(key_hash_len as u8);
	buff.extend_from_slice(key_hash);

	Hash160Hasher::new(&buff)
}
''','''
	hash_witness_program(key_hash)
}

fn hash_witness_program(program: &[u8]) -> Hash160Hasher {
	let mut buff = vec![0, program.len() as u8];
	buff.extend_from_slice(program);

	Hash160Hasher::new(&buff)
}
'''),('''	let digest_bytes = digest.as_ref();

	let mut buff = vec![];
	buff.push(0);
	buff.push(digest_bytes.len() as u8);
	buff.extend_from_slice(digest_bytes);

	Hash160Hasher::new(&buff)
''','''
	hash_witness_program(digest.as_ref())
''')],0),
# 23 p2sh with fold
(A,[('''	let mut builder = Builder::new();
	let mut key_counter = 0;

	builder = builder.push_int(signature_threshold as i64);

	for key in pub_keys {
		builder = builder.push_slice(&key.serialize());
		key_counter += 1;
	}

	builder = builder.push_int(key_counter);
	builder = builder.push_opcode(OP_CHECKMULTISIG);

	let script = builder.into_script();
	let script_hash = Hash160Hasher::new(script.as_bytes());

	script_hash
''','''	let keys: Vec<&PublicKey> = pub_keys.into_iter().collect();
	let start = Builder::new().push_int(signature_threshold as i64);

	let script = keys
		.iter()
		.fold(start, |builder, key| {
			builder.push_slice(&PublicKey::serialize(key))
		})
		.push_int(keys.len() as i64)
		.push_opcode(OP_CHECKMULTISIG)
		.into_script();

	Hash160Hasher::new(script.as_bytes())
''')],0),
# 24 address codec
(A,[('''		let mut version_buffer = [0; 1];
		data.read_exact(&mut version_buffer)?;

		let version = AddressVersion::try_from(version_buffer[0])
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		let mut hash_buffer = [0; HASH160_LENGTH];
		data.read_exact(&mut hash_buffer)?;

		let hash = Hash160Hasher::from_bytes(&hash_buffer).unwrap();

		Ok(Self { version, hash })
''','''		let mut version = 0u8;
		data.read_exact(std::slice::from_mut(&mut version))?;

		let version: AddressVersion = version
			.try_into()
			.map_err(|err: StacksError| io::Error::new(io::ErrorKind::InvalidData, err))?;

		let mut hash = [0; HASH160_LENGTH];
		data.read_exact(&mut hash)?;

		Ok(Self::new(version, hash.into()))
''')],0),
# 25 address from str
(A,[('''		if hash_bytes.len() != HASH160_LENGTH {
			return Err(StacksError::InvalidArguments(
				"Invalid hash length for address",
			));
		}

		let mut buffer = [0; HASH160_LENGTH];
		buffer.copy_from_slice(&hash_bytes);

		Ok(Self::new(version, buffer.into()))
''','''		let buffer: [u8; HASH160_LENGTH] =
			hash_bytes.try_into().map_err(|_| {
				StacksError::InvalidArguments("Invalid hash length for address")
			})?;

		Ok(Self::new(version, Hash160Hasher::from(buffer)))
''')],0),
# 26 Display through String
(A,[('''		write!(f, "{}", encode_address(self.version, self.hash.as_ref()))''','''		f.write_str(&encode_address(self.version(), self.hash().as_ref()))''')],0),
# 27 String from Display
(A,[('''		encode_address(address.version, address.hash.as_ref())
	}''','''		address.to_string()
	}''')],0),
# 28 principal codec
(L,[('''		let principal_type = PrincipalTypeByte::from_repr(type_buffer[0])
			.ok_or_else(|| {
				io::Error::new(
					io::ErrorKind::InvalidData,
					format!("Invalid principal type: {}", type_buffer[0]),
				)
			})?;

		match principal_type {
			PrincipalTypeByte::Standard => {
				let standard_data =
					StandardPrincipalData::codec_deserialize(data)?;

				Ok(Self::Standard(standard_data))
			}
			PrincipalTypeByte::Contract => {
				let standard_data =
					StandardPrincipalData::codec_deserialize(data)?;
				let contract_name = ContractName::codec_deserialize(data)?;

				Ok(Self::Contract(standard_data, contract_name))
			}
		}
''','''		match PrincipalTypeByte::from_repr(type_buffer[0]) {
			Some(PrincipalTypeByte::Standard) => {
				StandardPrincipalData::codec_deserialize(data)
					.map(Self::Standard)
			}
			Some(PrincipalTypeByte::Contract) => Ok(Self::Contract(
				StandardPrincipalData::codec_deserialize(data)?,
				ContractName::codec_deserialize(data)?,
			)),
			None => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Invalid principal type: {}", type_buffer[0]),
			)),
		}
''')],0),
# 29 serialize principal
(L,[('''		match self {
			Self::Standard(data) => {
				dest.write_all(&[PrincipalTypeByte::Standard as u8])?;
				data.codec_serialize(dest)
			}
			Self::Contract(data, contract_name) => {
				dest.write_all(&[PrincipalTypeByte::Contract as u8])?;
				data.codec_serialize(dest)?;
				contract_name.codec_serialize(dest)
			}
		}
''','''		let (type_byte, data, contract_name) = match self {
			Self::Standard(data) => (PrincipalTypeByte::Standard, data, None),
			Self::Contract(data, name) => {
				(PrincipalTypeByte::Contract, data, Some(name))
			}
		};

		dest.write_all(&[type_byte as u8])?;
		data.codec_serialize(dest)?;

		if let Some(name) = contract_name {
			name.codec_serialize(dest)?;
		}

		Ok(())
''')],0),
# 30 principal text: slice patterns
(L,[('''		match parts.len() {
			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 => {
				let address = StacksAddress::try_from(parts[0])?;
				let contract_name =
					ContractName::new(parts[1]).map_err(|err| {''','''		match parts.as_slice() {
			[address] => {
				let address = StacksAddress::try_from(*address)?;
				Ok(address.into())
			}
			[address, name] => {
				let address = StacksAddress::try_from(*address)?;
				let contract_name =
					ContractName::new(name).map_err(|err| {''')],0),
]
