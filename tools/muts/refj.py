"""behaviour-preserving rewrites of the command line tool, the commit-reveal scripts and the hash types"""
SCOPE = "core"
PROPS = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P26 P31 P32 P33 P42"
W = "sbtc-cli/src/commands/withdraw.rs"
M = "sbtc-cli/src/main.rs"
CU = "sbtc-core/src/operations/commit_reveal/utils.rs"
CD = "sbtc-core/src/operations/commit_reveal/deposit.rs"
CW = "sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"
OM = "sbtc-core/src/operations/mod.rs"
OF = "sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"
OD = "sbtc-core/src/operations/op_return/deposit.rs"
OU = "sbtc-core/src/operations/op_return/utils.rs"
UT = "sbtc-core/src/operations/utils.rs"
C = "stacks-core/src/crypto/mod.rs"
S = "stacks-core/src/crypto/sha256.rs"
H = "stacks-core/src/crypto/hash160.rs"
MUTS = [
 # 0 withdraw: parse everything first
 (W, [('''	let drawee_stacks_private_key =
		PrivateKey::from_wif(&withdrawal.drawee_wif)?.inner;
	let payee_bitcoin_address =
		BitcoinAddress::from_str(&withdrawal.payee_address)?;
	let sbtc_wallet_bitcoin_address =
		BitcoinAddress::from_str(&withdrawal.sbtc_wallet)?;

''', ""), ('''	let private_key = PrivateKey::from_wif(&withdrawal.wif)?;

''', '''	let private_key = PrivateKey::from_wif(&withdrawal.wif)?;
	let drawee_key = PrivateKey::from_wif(&withdrawal.drawee_wif)?;
	let drawee_stacks_private_key = drawee_key.inner;
	let payee_bitcoin_address: BitcoinAddress =
		withdrawal.payee_address.parse()?;
	let sbtc_wallet_bitcoin_address: BitcoinAddress =
		withdrawal.sbtc_wallet.parse()?;

''')], 0),
 # 1 withdraw: helper for the wallet
 (W, [('''pub fn build_withdrawal_tx(''', '''fn open_wallet(
	key: PrivateKey,
	network: BitcoinNetwork,
) -> anyhow::Result<Wallet<MemoryDatabase>> {
	Ok(Wallet::new(
		P2Wpkh(key),
		Some(P2Wpkh(key)),
		network,
		MemoryDatabase::default(),
	)?)
}

pub fn build_withdrawal_tx('''), ('''	let wallet = Wallet::new(
		P2Wpkh(private_key),
		Some(P2Wpkh(private_key)),
		withdrawal.network,
		MemoryDatabase::default(),
	)?;
''', '''	let wallet = open_wallet(private_key, withdrawal.network)?;
''')], 0),
 # 2 withdraw: helper for the output
 (W, [('''	serde_json::to_writer_pretty(
		stdout(),
		&TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		},
	)?;

	Ok(())
}''', '''	print_transaction(&tx)
}

fn print_transaction(
	tx: &bdk::bitcoin::Transaction,
) -> anyhow::Result<()> {
	let hex = hex::encode(tx.serialize());
	let id = tx.txid().to_string();
	let data = TransactionData { id, hex };

	serde_json::to_writer_pretty(stdout(), &data)?;

	Ok(())
}''')], 0),
 # 3 withdraw: the result of the writer as the last expression
 (W, [('''	serde_json::to_writer_pretty(
		stdout(),
		&TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		},
	)?;

	Ok(())
''', '''	serde_json::to_writer_pretty(
		stdout(),
		&TransactionData {
			id: tx.txid().to_string(),
			hex: hex::encode(tx.serialize()),
		},
	)
	.map_err(anyhow::Error::from)
''')], 0),
 # 4 main: result bound first
 (M, [('''	match args.command {
		Command::Deposit(deposit_args) => build_deposit_tx(&deposit_args),
		Command::Withdraw(withdrawal_args) => {
			build_withdrawal_tx(&withdrawal_args)
		}
		Command::Broadcast(broadcast_args) => broadcast_tx(&broadcast_args),
		Command::GenerateFrom(generate_args) => generate(&generate_args),
	}
''', '''	let outcome = match &args.command {
		Command::Deposit(deposit_args) => build_deposit_tx(deposit_args),
		Command::Withdraw(withdrawal_args) => {
			build_withdrawal_tx(withdrawal_args)
		}
		Command::Broadcast(broadcast_args) => broadcast_tx(broadcast_args),
		Command::GenerateFrom(generate_args) => generate(generate_args),
	};

	outcome?;

	Ok(())
''')], 0),
 # 5 main: a run function
 (M, [('''fn main() -> Result<(), anyhow::Error> {
	let args = Cli::parse();

	match args.command {''', '''fn main() -> Result<(), anyhow::Error> {
	run(Cli::parse().command)
}

fn run(command: Command) -> Result<(), anyhow::Error> {
	match command {''')], 0),
 # 6 reveal script from an array
 (CU, [('''	let op_return_bytes: Vec<u8> = stacks_magic_bytes
		.iter()
		.cloned()
		.chain(once(b'w'))
		.collect();
''', '''	let [first, second] = *stacks_magic_bytes;
	let op_return_bytes = [first, second, b'w'];
'''), ("use std::{iter::once, num::TryFromIntError};", "use std::num::TryFromIntError;")], 0),
 # 7 reveal script with extend
 (CU, [('''	let op_return_bytes: Vec<u8> = stacks_magic_bytes
		.iter()
		.cloned()
		.chain(once(b'w'))
		.collect();
''', '''	let mut op_return_bytes = Vec::with_capacity(3);
	op_return_bytes.extend_from_slice(stacks_magic_bytes);
	op_return_bytes.extend(once(b'w'));
''')], 0),
 # 8 checksig helper
 (CU, [('''fn reclaim_script(reclaim_key: &XOnlyPublicKey) -> Script {
	Builder::new()
		.push_x_only_key(reclaim_key)
		.push_opcode(OP_CHECKSIG)
		.into_script()
}
''', '''fn reclaim_script(reclaim_key: &XOnlyPublicKey) -> Script {
	checked_by(Builder::new(), reclaim_key)
}

fn checked_by(builder: Builder, key: &XOnlyPublicKey) -> Script {
	let with_key = builder.push_x_only_key(key);

	with_key.push_opcode(OP_CHECKSIG).into_script()
}
'''), ('''	Builder::new()
		.push_slice(data)
		.push_opcode(OP_DROP)
		.push_x_only_key(revealer_key)
		.push_opcode(OP_CHECKSIG)
		.into_script()
''', '''	checked_by(
		Builder::new().push_slice(data).push_opcode(OP_DROP),
		revealer_key,
	)
''')], 0),
 # 9 taproot builder in steps
 (CU, [('''	Ok(TaprootBuilder::new()
        .add_leaf(1, reveal_script)
        .map_err(|err| CommitRevealError::InvalidTaproot("Invalid reveal script", err))?
        .add_leaf(1, reclaim_script)
        .map_err(|err| CommitRevealError::InvalidTaproot("Invalid reclaim script", err))?
        .finalize(&secp, internal_key)
''', '''	let builder = match TaprootBuilder::new().add_leaf(1, reveal_script) {
		Ok(builder) => builder,
		Err(err) => return Err(CommitRevealError::InvalidTaproot("Invalid reveal script", err)),
	};
	let builder = builder
		.add_leaf(1, reclaim_script)
		.map_err(|err| CommitRevealError::InvalidTaproot("Invalid reclaim script", err))?;

	Ok(builder
        .finalize(&secp, internal_key)
''')], 0),
 # 10 commit via map
 (CU, [('''	let spend_info = taproot_spend_info(data, revealer_key, reclaim_key)?;
	Ok(address_from_taproot_spend_info(spend_info))
''', '''	taproot_spend_info(data, revealer_key, reclaim_key)
		.map(address_from_taproot_spend_info)
''')], 0),
 # 11 reveal: witness from a list
 (CU, [('''	let mut witness = Witness::new();
	witness.push(script);
	witness.push(control_block.serialize());
''', '''	let witness =
		Witness::from_vec(vec![script.to_bytes(), control_block.serialize()]);
''')], 0),
 # 12 reveal: control block by match
 (CU, [('''	let control_block = spend_info
		.control_block(&(script.clone(), LeafVersion::TapScript))
		.ok_or(CommitRevealError::NoControlBlock)?;
''', '''	let leaf = (script.clone(), LeafVersion::TapScript);
	let Some(control_block) = spend_info.control_block(&leaf) else {
		return Err(CommitRevealError::NoControlBlock);
	};
''')], 0),
 # 13 reveal: parts bound
 (CU, [('''	let tx = Transaction {
		version: 2,
		lock_time: PackedLockTime::ZERO,
		input: vec![TxIn {
			previous_output: commit_output,
			script_sig: Script::new(),
			sequence: Sequence::MAX,
			witness,
		}],
		output: vec![TxOut {
			value: 0,
			script_pubkey: reveal_op_return_script(stacks_magic_bytes),
		}],
	};

	Ok(tx)
''', '''	let marker = TxOut {
		script_pubkey: reveal_op_return_script(stacks_magic_bytes),
		value: 0,
	};
	let spending = TxIn {
		previous_output: commit_output,
		sequence: Sequence::MAX,
		script_sig: Script::default(),
		witness,
	};

	Ok(Transaction {
		version: 2,
		lock_time: PackedLockTime(0),
		input: Vec::from([spending]),
		output: Vec::from([marker]),
	})
''')], 0),
 # 14 commit-reveal deposit: collected payload
 (CD, [('''	let mut tx = reveal(&deposit_data.serialize_to_vec(), reveal_inputs)?;

	tx.output.push(TxOut {
		value: (commit_amount - deposit_data.reveal_fee).to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});

	Ok(tx)
''', '''	let payload = deposit_data.serialize_to_vec();
	let deposited = commit_amount - deposit_data.reveal_fee;
	let payment = TxOut {
		script_pubkey: sbtc_wallet_address.script_pubkey(),
		value: deposited.to_sat(),
	};

	reveal(&payload, reveal_inputs).map(|mut tx| {
		tx.output.push(payment);
		tx
	})
''')], 0),
 # 15 commit-reveal withdrawal: extend
 (CW, [('''	tx.output.push(TxOut {
		value: (commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)
			.to_sat(),
		script_pubkey: recipient_wallet_address.script_pubkey(),
	});
	tx.output.push(TxOut {
		value: fulfillment_fee.to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});
''', '''	let refund = commit_amount - withdrawal_data.reveal_fee - fulfillment_fee;

	tx.output.extend(
		[
			(refund, recipient_wallet_address),
			(fulfillment_fee, sbtc_wallet_address),
		]
		.into_iter()
		.map(|(amount, address)| TxOut {
			value: amount.to_sat(),
			script_pubkey: address.script_pubkey(),
		}),
	);
''')], 0),
 # 16 opcode check with if let
 (CW, [('''		if !matches!(opcode, Opcode::WithdrawalRequest) {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode, expected withdrawal request",
			));
		}

		let amount = Amount::codec_deserialize(data)?;
		let signature = RecoverableSignature::codec_deserialize(data)?;
		let reveal_fee = Amount::codec_deserialize(data)?;

		Ok(Self {
			amount,
			signature,
			reveal_fee,
		})
''', '''		match opcode {
			Opcode::WithdrawalRequest => Ok(Self {
				amount: Codec::codec_deserialize(data)?,
				signature: Codec::codec_deserialize(data)?,
				reveal_fee: Codec::codec_deserialize(data)?,
			}),
			_ => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode, expected withdrawal request",
			)),
		}
''')], 0),
 # 17 opcode written by hand
 (OM, [('''		Self::from_repr(buffer[0])
			.ok_or(io::Error::new(io::ErrorKind::InvalidData, "Invalid opcode"))
''', '''		match buffer[0] {
			b'<' => Ok(Self::Deposit),
			b'>' => Ok(Self::WithdrawalRequest),
			b'!' => Ok(Self::WithdrawalFulfillment),
			b'H' => Ok(Self::WalletHandoff),
			_ => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode",
			)),
		}
''')], 0),
 # 18 opcode read through an iterator of all
 (OM, [('''		Self::from_repr(buffer[0])
			.ok_or(io::Error::new(io::ErrorKind::InvalidData, "Invalid opcode"))
''', '''		[
			Self::Deposit,
			Self::WithdrawalRequest,
			Self::WithdrawalFulfillment,
			Self::WalletHandoff,
		]
		.into_iter()
		.find(|opcode| *opcode as u8 == buffer[0])
		.ok_or_else(|| {
			io::Error::new(io::ErrorKind::InvalidData, "Invalid opcode")
		})
''')], 0),
 # 19 magic bytes
 (OM, [('''	match network {
		Network::Bitcoin => [b'X', b'2'],
		Network::Testnet => [b'T', b'2'],
		_ => [b'i', b'd'],
	}
''', '''	*match network {
		Network::Bitcoin => b"X2",
		Network::Testnet => b"T2",
		Network::Signet | Network::Regtest => b"id",
	}
''')], 0),
 # 20 fulfilment outputs
 (OF, [('''	let data = ParsedWithdrawalFulfillmentData {
		network: bitcoin_network,
		chain_tip: stacks_chain_tip,
	};

	let data_script = build_op_return_script(&data.serialize_to_vec());
	let recipient_script = recipient_bitcoin_address.script_pubkey();

	Ok([(data_script, 0), (recipient_script, amount)])
''', '''	let payee = (recipient_bitcoin_address.script_pubkey(), amount);
	let mut payload = Vec::new();
	ParsedWithdrawalFulfillmentData {
		chain_tip: stacks_chain_tip,
		network: bitcoin_network,
	}
	.codec_serialize(&mut payload)
	.expect("a vector takes every write");

	Ok([(build_op_return_script(&payload), 0), payee])
''')], 0),
 # 21 fulfilment: network by a direct search
 (OF, [('''		let network_magic_bytes = [
			BitcoinNetwork::Bitcoin,
			BitcoinNetwork::Testnet,
			BitcoinNetwork::Signet,
			BitcoinNetwork::Regtest,
		]
		.into_iter()
		.map(|network| (magic_bytes(network), network))
		.collect::<HashMap<[u8; 2], BitcoinNetwork>>();

		let network = network_magic_bytes
			.get(&magic_bytes_buffer)
			.cloned()
			.ok_or(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			))?;
''', '''		let network = [
			BitcoinNetwork::Regtest,
			BitcoinNetwork::Testnet,
			BitcoinNetwork::Bitcoin,
		]
		.into_iter()
		.find(|network| magic_bytes(*network) == magic_bytes_buffer)
		.ok_or_else(|| {
			io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			)
		})?;
'''), ("use std::{collections::HashMap, io};", "use std::io;")], 0),
 # 22 fulfilment: builder and sign in one function
 (OF, [('''	wallet
		.sign(&mut psbt, SignOptions::default())
		.map_err(|err| {
			SBTCError::BDKError("Could not sign withdrawal transaction", err)
		})?;

	Ok(psbt.extract_tx())
''', '''	match wallet.sign(&mut psbt, SignOptions::default()) {
		Ok(_) => Ok(psbt.extract_tx()),
		Err(err) => Err(SBTCError::BDKError(
			"Could not sign withdrawal transaction",
			err,
		)),
	}
''')], 0),
 # 23 fulfilment: recipients
 (OF, [('''	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
''', '''	tx_builder.set_recipients(outputs.to_vec());
''')], 0),
 # 24 deposit parse: outputs by index
 (OD, [('''		let mut output_iter = tx.output.into_iter();

		let data_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;
''', '''		let data_output = tx
			.output
			.first()
			.ok_or(DepositParseError::InvalidOutputs)?;
'''), ('''		let amount_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;
''', '''		let amount_output = tx
			.output
			.get(1)
			.ok_or(DepositParseError::InvalidOutputs)?;
''')], 0),
 # 25 deposit: a shared helper for the wallet steps
 (OD, [('''	let (mut partial_tx, _) = tx_builder.finish().map_err(|err| {
		SBTCError::BDKError("Could not finish the transaction", err)
	})?;

	partial_tx.unsigned_tx.output =
		reorder_outputs(partial_tx.unsigned_tx.output, outputs);

	wallet
		.sign(&mut partial_tx, SignOptions::default())
		.map_err(|err| {
			SBTCError::BDKError("Could not sign the transaction", err)
		})?;

	Ok(partial_tx.extract_tx())
}
''', '''	let (mut partial_tx, _) = tx_builder.finish().map_err(|err| {
		SBTCError::BDKError("Could not finish the transaction", err)
	})?;

	let unordered = std::mem::take(&mut partial_tx.unsigned_tx.output);
	partial_tx.unsigned_tx.output = reorder_outputs(unordered, outputs);

	signed(&wallet, partial_tx, "Could not sign the transaction")
}

fn signed<T: BatchDatabase>(
	wallet: &Wallet<T>,
	mut psbt: PartiallySignedTransaction,
	failure: &'static str,
) -> SBTCResult<Transaction> {
	wallet
		.sign(&mut psbt, SignOptions::default())
		.map_err(|err| SBTCError::BDKError(failure, err))?;

	Ok(psbt.extract_tx())
}
'''), ('''	wallet
		.sign(&mut psbt, SignOptions::default())
		.map_err(|err| {
			SBTCError::BDKError("Could not sign transaction", err)
		})?;

	Ok(psbt.extract_tx())
''', '''	signed(&wallet, psbt, "Could not sign transaction")
'''), ("	let mut psbt = create_partially_signed_deposit_transaction(", "	let psbt = create_partially_signed_deposit_transaction(")], 0),
 # 26 deposit: check first
 (OD, [('''	let mut tx_builder = wallet.build_tx();

	let deposit_data =
		DepositOutputData { network, recipient }.serialize_to_vec();
	let op_return_script = build_op_return_script(&deposit_data);

	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = sbtc_wallet_script.dust_value().to_sat();

	if amount < dust_amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let outputs''', '''	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = sbtc_wallet_script.dust_value().to_sat();

	if dust_amount > amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let data = DepositOutputData { recipient, network };
	let op_return_script = build_op_return_script(&data.serialize_to_vec());
	let mut tx_builder = wallet.build_tx();

	let outputs''')], 0),
 # 27 op return script with new_op_return
 (OU, [('''	Builder::new()
		.push_opcode(OP_RETURN)
		.push_slice(data)
		.into_script()
''', '''	Script::new_op_return(data)
'''), ("	blockdata::{opcodes::all::OP_RETURN, script::Builder},\n", "")], 0),
 # 28 wallet setup: client created inline
 (UT, [('''	let blockchain = init_blockchain()?;

	let wallet = Wallet::new(
		P2Wpkh(private_key),
		Some(P2Wpkh(private_key)),
		private_key.network,
		MemoryDatabase::default(),
	)
	.map_err(|err| SBTCError::BDKError("Could not open wallet", err))?;

	wallet
		.sync(&blockchain, SyncOptions::default())
		.map_err(|err| SBTCError::BDKError("Could not sync wallet", err))?;

	Ok(wallet)
''', '''	let network = private_key.network;
	let wallet = Wallet::new(
		P2Wpkh(private_key),
		Some(P2Wpkh(private_key)),
		network,
		MemoryDatabase::new(),
	)
	.map_err(|err| SBTCError::BDKError("Could not open wallet", err))?;

	let blockchain = init_blockchain()?;

	if let Err(err) = wallet.sync(&blockchain, SyncOptions::default()) {
		return Err(SBTCError::BDKError("Could not sync wallet", err));
	}

	Ok(wallet)
''')], 0),
 # 29 hex helper
 (C, [('''	fn from_hex(data: impl AsRef<str>) -> StacksResult<Self> {
		Self::from_bytes(&hex::decode(data.as_ref().as_bytes())?)
	}
''', '''	fn from_hex(data: impl AsRef<str>) -> StacksResult<Self> {
		let bytes = hex::decode(data.as_ref())?;

		Self::from_bytes(&bytes)
	}
'''), ('''		Self::from_bytes(&hex::decode(value.0)?)
''', '''		Self::from_hex(value.0)
''')], 0),
 # 30 zeroes, checksum
 (C, [('''		Self::from_bytes(vec![0; LENGTH].as_slice()).unwrap()
''', '''		Self::from_bytes(&[0; LENGTH]).unwrap()
'''), ('''		self.as_bytes()[0..CHECKSUM_LENGTH].try_into().unwrap()
''', '''		let mut checksum = [0; CHECKSUM_LENGTH];
		checksum.copy_from_slice(&self.as_bytes()[..CHECKSUM_LENGTH]);

		checksum
''')], 0),
 # 31 hasher from bytes by map
 (C, [('''		Ok(Self(T::from_bytes(bytes)?))
''', '''		T::from_bytes(bytes).map(Self)
'''), ('''		Hex(hex::encode(self.as_bytes()))
''', '''		Hex(self.to_hex())
''')], 0),
 # 32 sha256 incremental
 (S, [('''		Self(Sha256::digest(data).into())
''', '''		let mut hasher = Sha256::new();
		hasher.update(data);

		Self(hasher.finalize().into())
''')], 0),
 # 33 double sha in steps
 (S, [('''		Self(Sha256Hashing::hash(Sha256Hashing::hash(data).as_bytes()))
''', '''		let Sha256Hashing(first) = Sha256Hashing::hash(data);

		Self(Sha256Hashing::new(first))
''')], 0),
 # 34 sha from bytes
 (S, [('''	fn from_bytes(bytes: &[u8]) -> StacksResult<Self> {
		Ok(Self(bytes.try_into()?))
	}
''', '''	fn from_bytes(bytes: &[u8]) -> StacksResult<Self> {
		let array: [u8; SHA256_LENGTH] = bytes.try_into()?;

		Ok(Self(array))
	}
''')], 0),
 # 35 hash160 in steps
 (H, [('''		Self(Ripemd160::digest(Sha256Hasher::new(data)).into())
''', '''		let inner = Sha256Hasher::hash(data);
		let mut outer = Ripemd160::new();
		outer.update(inner.as_bytes());

		Self(outer.finalize().into())
''')], 0),
]
