# refactorings of sbtc-core's operations: every check stays quiet
PROPS="P01 P02 P03 P04 P05 P06 P07 P08 P11 P12 P13 P14 P32"
SCOPE="core"
O="sbtc-core/src/operations/"
DE,WR,WF,UT=O+"op_return/deposit.rs",O+"op_return/withdrawal_request.rs",O+"op_return/withdrawal_fulfillment.rs",O+"op_return/utils.rs"
CU,CD,CW,MO=O+"commit_reveal/utils.rs",O+"commit_reveal/deposit.rs",O+"commit_reveal/withdrawal_request.rs",O+"mod.rs"
MUTS=[
# 0 dust check in a helper, before the data
(DE,[('''	let mut tx_builder = wallet.build_tx();

	let deposit_data =
		DepositOutputData { network, recipient }.serialize_to_vec();
	let op_return_script = build_op_return_script(&deposit_data);

	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = sbtc_wallet_script.dust_value().to_sat();

	if amount < dust_amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let outputs = [(op_return_script, 0), (sbtc_wallet_script, amount)];

	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
''','''	let outputs = deposit_outputs(network, recipient, &sbtc_address, amount)?;

	let mut tx_builder = wallet.build_tx();
	outputs.iter().for_each(|(script, amount)| {
		tx_builder.add_recipient(script.clone(), *amount);
	});
'''),('''#[derive(Debug, Clone)]
/// The amount and recipient of a deposit request''','''fn deposit_outputs(
	network: Network,
	recipient: PrincipalData,
	sbtc_address: &BitcoinAddress,
	amount: u64,
) -> SBTCResult<[(bdk::bitcoin::Script, u64); 2]> {
	let sbtc_wallet_script = sbtc_address.script_pubkey();
	ensure_above_dust(amount, &sbtc_wallet_script)?;

	let data = DepositOutputData { network, recipient };
	let op_return_script = build_op_return_script(&data.serialize_to_vec());

	Ok([(op_return_script, 0), (sbtc_wallet_script, amount)])
}

fn ensure_above_dust(
	amount: u64,
	script: &bdk::bitcoin::Script,
) -> SBTCResult<()> {
	let dust_amount = script.dust_value().to_sat();
	if amount >= dust_amount {
		Ok(())
	} else {
		Err(SBTCError::AmountInsufficient(amount, dust_amount))
	}
}

#[derive(Debug, Clone)]
/// The amount and recipient of a deposit request''')],0),
# 1 parse with match and slices
(DE,[('''		let mut output_iter = tx.output.into_iter();

		let data_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;

		let mut instructions_iter = data_output.script_pubkey.instructions();

		let Some(Ok(Instruction::Op(OP_RETURN))) = instructions_iter.next()
		else {
			return Err(DepositParseError::NotSbtcOp);
		};

		let Some(Ok(Instruction::PushBytes(mut data))) =
			instructions_iter.next()
		else {
			return Err(DepositParseError::NotSbtcOp);
		};
''','''		let data_output =
			tx.output.first().ok_or(DepositParseError::InvalidOutputs)?;

		let mut instructions = data_output.script_pubkey.instructions();

		match instructions.next() {
			Some(Ok(Instruction::Op(OP_RETURN))) => {}
			_ => return Err(DepositParseError::NotSbtcOp),
		}

		let mut data = match instructions.next() {
			Some(Ok(Instruction::PushBytes(data))) => data,
			_ => return Err(DepositParseError::NotSbtcOp),
		};
'''),('''		let amount_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;

		let amount = amount_output.value;
		let address =
			BitcoinAddress::from_script(&amount_output.script_pubkey, network)?;

		Ok(Self {
			amount,
			recipient: deposit_data.recipient,
			sbtc_wallet_address: address,
			network,
		})''','''		let amount_output =
			tx.output.get(1).ok_or(DepositParseError::InvalidOutputs)?;

		let sbtc_wallet_address =
			BitcoinAddress::from_script(&amount_output.script_pubkey, network)?;
		let DepositOutputData { recipient, .. } = deposit_data;

		Ok(Self {
			network,
			recipient,
			sbtc_wallet_address,
			amount: amount_output.value,
		})''')],0),
# 2 network found by find
(DE,[('''		let network_magic_bytes = [
			Network::Bitcoin,
			Network::Testnet,
			Network::Signet,
			Network::Regtest,
		]
		.into_iter()
		.map(|network| (magic_bytes(network), network))
		.collect::<HashMap<[u8; 2], Network>>();

		let network = network_magic_bytes
			.get(&magic_bytes_buffer)
			.cloned()
			.ok_or(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			))?;
''','''		let network = [
			Network::Regtest,
			Network::Bitcoin,
			Network::Testnet,
			Network::Signet,
		]
		.into_iter()
		.find(|network| magic_bytes(*network) == magic_bytes_buffer)
		.ok_or_else(|| {
			io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			)
		})?;
'''),("use std::{collections::HashMap, io};","use std::io;")],0),
# 3 network map filled by a loop
(DE,[('''		let network_magic_bytes = [
			Network::Bitcoin,
			Network::Testnet,
			Network::Signet,
			Network::Regtest,
		]
		.into_iter()
		.map(|network| (magic_bytes(network), network))
		.collect::<HashMap<[u8; 2], Network>>();

		let network = network_magic_bytes
			.get(&magic_bytes_buffer)
			.cloned()
			.ok_or(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			))?;
''','''		let mut network_magic_bytes = HashMap::new();
		for network in [
			Network::Bitcoin,
			Network::Testnet,
			Network::Signet,
			Network::Regtest,
		] {
			network_magic_bytes.insert(magic_bytes(network), network);
		}

		let Some(&network) = network_magic_bytes.get(&magic_bytes_buffer)
		else {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			));
		};
''')],0),
# 4 opcode by match, serialize at once
(DE,[('''		dest.write_all(&magic_bytes(self.network))?;
		dest.write_all(&[Opcode::Deposit as u8])?;
		self.recipient.codec_serialize(dest)''','''		let [first, second] = magic_bytes(self.network);
		dest.write_all(&[first, second, Opcode::Deposit as u8])?;
		self.recipient.codec_serialize(dest)?;
		Ok(())'''),('''		if !matches!(opcode, Opcode::Deposit) {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Invalid opcode, expected deposit: {:?}", opcode),
			));
		}

		let recipient = PrincipalData::codec_deserialize(data)?;

		Ok(Self { network, recipient })''','''		match opcode {
			Opcode::Deposit => PrincipalData::codec_deserialize(data)
				.map(|recipient| Self { network, recipient }),
			other => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Invalid opcode, expected deposit: {:?}", other),
			)),
		}''')],0),
# 5 reorder by a loop over positions
(UT,[('''	let mut outputs_ordered: Vec<(usize, TxOut)> = outputs
		.into_iter()
		.map(|txout| {
			let idx = indices
				.get_mut(&(txout.script_pubkey.clone(), txout.value))
				.and_then(VecDeque::pop_front)
				.unwrap_or(usize::MAX); // Change amount

			(idx, txout)
		})
		.collect();

	outputs_ordered.sort_by_key(|(idx, _)| *idx);

	outputs_ordered.into_iter().map(|(_, txout)| txout).collect()''','''	let mut outputs_ordered = Vec::new();
	for txout in outputs {
		let key = (txout.script_pubkey.clone(), txout.value);
		let idx = match indices.get_mut(&key) {
			Some(places) => places.pop_front().unwrap_or(usize::MAX),
			None => usize::MAX, // Change amount
		};
		outputs_ordered.push((idx, txout));
	}

	outputs_ordered.sort_by_key(|entry| entry.0);

	outputs_ordered.into_iter().map(|entry| entry.1).collect()''')],0),
# 6 op_return script in steps
(UT,[('''	Builder::new()
		.push_opcode(OP_RETURN)
		.push_slice(data)
		.into_script()''','''	let mut builder = Builder::new();
	builder = builder.push_opcode(OP_RETURN);
	builder = builder.push_slice(data);
	builder.into_script()''')],0),
# 7 helper for op and data
(WR,[('''	let Some(Ok(Instruction::Op(OP_RETURN))) = instructions_iter.next() else {
		return Err(SBTCError::NotSBTCOperation);
	};

	let Some(Ok(Instruction::PushBytes(mut data))) = instructions_iter.next()
	else {
		return Err(SBTCError::NotSBTCOperation);
	};
''','''	if !matches!(
		instructions_iter.next(),
		Some(Ok(Instruction::Op(op))) if op == OP_RETURN
	) {
		return Err(SBTCError::NotSBTCOperation);
	}

	let mut data = pushed_bytes(instructions_iter.next())?;
'''),('''	let recipient_pubkey_output =
		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;

	let recipient_address = BitcoinAddress::from_script(
		&recipient_pubkey_output.script_pubkey,
		network,
	)
	.map_err(|_| SBTCError::NotSBTCOperation)?;
''','''	let recipient_address = next_address(&mut output_iter, network)?.0;
'''),('''	let fulfillment_fee_output =
		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;

	let sbtc_wallet = BitcoinAddress::from_script(
		&fulfillment_fee_output.script_pubkey,
		network,
	)
	.map_err(|_| SBTCError::NotSBTCOperation)?;
''','''	let (sbtc_wallet, fulfillment_amount) =
		next_address(&mut output_iter, network)?;
'''),('''		fulfillment_amount: fulfillment_fee_output.value,
''','''		fulfillment_amount,
'''),('''/// Withdrawal request transaction data
pub struct''','''fn pushed_bytes<'a, E>(
	instruction: Option<Result<Instruction<'a>, E>>,
) -> SBTCResult<&'a [u8]> {
	match instruction {
		Some(Ok(Instruction::PushBytes(data))) => Ok(data),
		_ => Err(SBTCError::NotSBTCOperation),
	}
}

fn next_address(
	outputs: &mut impl Iterator<Item = bdk::bitcoin::TxOut>,
	network: BitcoinNetwork,
) -> SBTCResult<(BitcoinAddress, u64)> {
	let output = outputs.next().ok_or(SBTCError::NotSBTCOperation)?;
	let address = BitcoinAddress::from_script(&output.script_pubkey, network)
		.map_err(|_| SBTCError::NotSBTCOperation)?;
	Ok((address, output.value))
}

/// Withdrawal request transaction data
pub struct''')],0),
# 8 wallet output read before the signature
(WR,[('''	let drawee_stacks_public_key = recover_signature(''','''	let fulfillment_fee_output =
		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;

	let sbtc_wallet = BitcoinAddress::from_script(
		&fulfillment_fee_output.script_pubkey,
		network,
	)
	.map_err(|_| SBTCError::NotSBTCOperation)?;

	let drawee_stacks_public_key = recover_signature('''),('''	let fulfillment_fee_output =
		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;

	let sbtc_wallet = BitcoinAddress::from_script(
		&fulfillment_fee_output.script_pubkey,
		network,
	)
	.map_err(|_| SBTCError::NotSBTCOperation)?;

	Ok(Wi''','''	Ok(Wi'''),('''	let drawee_stacks_address_version = match network {
		BitcoinNetwork::Bitcoin => StacksAddressVersion::MainnetSingleSig,
		_ => StacksAddressVersion::TestnetSingleSig,
	};
''','''	let drawee_stacks_address_version = if network == BitcoinNetwork::Bitcoin {
		StacksAddressVersion::MainnetSingleSig
	} else {
		StacksAddressVersion::TestnetSingleSig
	};
''')],0),
# 9 outputs
(WR,[('''	let recipient_script = payee_bitcoin_address.script_pubkey();
	let sbtc_wallet_script = sbtc_wallet_bitcoin_address.script_pubkey();

	// Check that we have enough to cover dust
	let recipient_dust_amount = recipient_script.dust_value().to_sat();
	let sbtc_wallet_dust_amount = sbtc_wallet_script.dust_value().to_sat();

	if fulfillment_amount < sbtc_wallet_dust_amount {
		return Err(SBTCError::AmountInsufficient(
			fulfillment_amount,
			sbtc_wallet_dust_amount,
		));
	}

	let op_return_script = build_op_return_script(
		&WithdrawalRequestDataOutputData::new(
			payee_bitcoin_address,
			drawee_stacks_private_key,
			amount,
			network,
		)
		.serialize_to_vec(),
	);

	let outputs = [
		(op_return_script, 0),
		(recipient_script, recipient_dust_amount),
		(sbtc_wallet_script, fulfillment_amount),
	];

	Ok(outputs)''','''	let data = WithdrawalRequestDataOutputData::new(
		payee_bitcoin_address,
		drawee_stacks_private_key,
		amount,
		network,
	)
	.serialize_to_vec();

	let sbtc_wallet_script = sbtc_wallet_bitcoin_address.script_pubkey();
	let minimum = sbtc_wallet_script.dust_value().to_sat();
	(fulfillment_amount >= minimum)
		.then_some(())
		.ok_or(SBTCError::AmountInsufficient(fulfillment_amount, minimum))?;

	let payee_script = payee_bitcoin_address.script_pubkey();
	let payee_dust = payee_script.dust_value().to_sat();

	Ok([
		(build_op_return_script(&data), 0),
		(payee_script, payee_dust),
		(sbtc_wallet_script, fulfillment_amount),
	])''')],0),
# 10 helper reorders in psbt
(WR,[('''	let mut tx_builder = wallet.build_tx();

	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}

	let (mut partial_tx, _) = tx_builder.finish().map_err(|err| {
		SBTCError::BDKError(
			"Could not build partially signed withdrawal transaction",
			err,
		)
	})?;

	partial_tx.unsigned_tx.output =
		reorder_outputs(partial_tx.unsigned_tx.output, outputs);

	Ok(partial_tx)''','''	let mut tx_builder = wallet.build_tx();
	tx_builder.set_recipients(outputs.to_vec());

	match tx_builder.finish() {
		Ok((mut partial_tx, _)) => {
			let made = std::mem::take(&mut partial_tx.unsigned_tx.output);
			partial_tx.unsigned_tx.output = reorder_outputs(made, outputs);
			Ok(partial_tx)
		}
		Err(err) => Err(SBTCError::BDKError(
			"Could not build partially signed withdrawal transaction",
			err,
		)),
	}''')],0),
# 11 fulfilment
(WF,[('''	let data = ParsedWithdrawalFulfillmentData {
		network: bitcoin_network,
		chain_tip: stacks_chain_tip,
	};

	let data_script = build_op_return_script(&data.serialize_to_vec());
	let recipient_script = recipient_bitcoin_address.script_pubkey();

	Ok([(data_script, 0), (recipient_script, amount)])''','''	let mut data = Vec::with_capacity(35);
	ParsedWithdrawalFulfillmentData {
		chain_tip: stacks_chain_tip,
		network: bitcoin_network,
	}
	.codec_serialize(&mut data)
	.expect("writing to a vector cannot fail");

	Ok([
		(build_op_return_script(&data), 0),
		(recipient_bitcoin_address.script_pubkey(), amount),
	])'''),('''	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
''','''	let mut next = 0;
	while next < outputs.len() {
		let (script, amount) = outputs[next].clone();
		tx_builder.add_recipient(script, amount);
		next += 1;
	}
''')],0),
# 12 magic bytes by if
(MO,[('''	match network {
		Network::Bitcoin => [b'X', b'2'],
		Network::Testnet => [b'T', b'2'],
		_ => [b'i', b'd'],
	}''','''	let magic = match network {
		Network::Bitcoin => b"X2",
		Network::Testnet => b"T2",
		Network::Signet | Network::Regtest => b"id",
	};
	*magic'''),('''		let mut buffer = [0; 1];
		data.read_exact(&mut buffer)?;

		Self::from_repr(buffer[0])
			.ok_or(io::Error::new(io::ErrorKind::InvalidData, "Invalid opcode"))''','''		let mut buffer = [0; 1];
		data.read_exact(&mut buffer)?;
		let [byte] = buffer;

		match byte {
			b'<' => Ok(Self::Deposit),
			b'>' => Ok(Self::WithdrawalRequest),
			b'!' => Ok(Self::WithdrawalFulfillment),
			b'H' => Ok(Self::WalletHandoff),
			_ => Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode",
			)),
		}'''),("#[derive(FromRepr, Debug","#[derive(Debug"),("use strum::FromRepr;\n","")],0),
# 13 commit reveal
(CU,[('''	let spend_info = taproot_spend_info(data, revealer_key, reclaim_key)?;
	Ok(address_from_taproot_spend_info(spend_info))''','''	taproot_spend_info(data, revealer_key, reclaim_key)
		.map(address_from_taproot_spend_info)'''),('''	let spend_info = taproot_spend_info(data, revealer_key, reclaim_key)?;

	let script = op_drop_script(data, revealer_key);
	let control_block = spend_info
		.control_block(&(script.clone(), LeafVersion::TapScript))
		.ok_or(CommitRevealError::NoControlBlock)?;

	let mut witness = Witness::new();
	witness.push(script);
	witness.push(control_block.serialize());

	let tx = Transaction {
		version: 2,
		lock_time: PackedLockTime::ZERO,
		input: vec![TxIn {
			previous_output: commit_output,
			script_sig: Script::new(),
			sequence: Sequence::MAX,
			witness,
		}],
		output: vec![TxOut {
			value: 0,
			script_pubkey: reveal_op_return_script(stacks_magic_bytes),
		}],
	};

	Ok(tx)''','''	let input = TxIn {
		previous_output: commit_output,
		script_sig: Script::new(),
		sequence: Sequence::MAX,
		witness: reveal_witness(data, revealer_key, reclaim_key)?,
	};
	let marker = TxOut {
		value: 0,
		script_pubkey: reveal_op_return_script(stacks_magic_bytes),
	};

	Ok(Transaction {
		version: 2,
		lock_time: PackedLockTime::ZERO,
		input: vec![input],
		output: vec![marker],
	})'''),('''/// Constructs a transaction that reveals the commit data
''','''fn reveal_witness(
	data: &[u8],
	revealer_key: &XOnlyPublicKey,
	reclaim_key: &XOnlyPublicKey,
) -> CommitRevealResult<Witness> {
	let leaf = (
		op_drop_script(data, revealer_key),
		LeafVersion::TapScript,
	);
	let spend_info = taproot_spend_info(data, revealer_key, reclaim_key)?;
	let Some(control_block) = spend_info.control_block(&leaf) else {
		return Err(CommitRevealError::NoControlBlock);
	};

	let mut witness = Witness::new();
	witness.push(leaf.0);
	witness.push(control_block.serialize());
	Ok(witness)
}

/// Constructs a transaction that reveals the commit data
'''),('''	let op_return_bytes: Vec<u8> = stacks_magic_bytes
		.iter()
		.cloned()
		.chain(once(b'w'))
		.collect();
''','''	let mut op_return_bytes = stacks_magic_bytes.to_vec();
	op_return_bytes.push(b'w');
'''),("use std::{iter::once, num::TryFromIntError};","use std::num::TryFromIntError;")],0),
# 14
(CW,[('''	tx.output.push(TxOut {
		value: (commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)
			.to_sat(),
		script_pubkey: recipient_wallet_address.script_pubkey(),
	});
	tx.output.push(TxOut {
		value: fulfillment_fee.to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});
''','''	let fees = withdrawal_data.reveal_fee + fulfillment_fee;
	let payments = [
		(commit_amount - fees, recipient_wallet_address),
		(fulfillment_fee, sbtc_wallet_address),
	];
	for (amount, address) in payments {
		tx.output.push(TxOut {
			value: amount.to_sat(),
			script_pubkey: address.script_pubkey(),
		});
	}
'''),('''		if !matches!(opcode, Opcode::WithdrawalRequest) {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode, expected withdrawal request",
			));
		}

		let amount = Amount::codec_deserialize(data)?;
		let signature = RecoverableSignature::codec_deserialize(data)?;
		let reveal_fee = Amount::codec_deserialize(data)?;

		Ok(Self {
			amount,
			signature,
			reveal_fee,
		})''','''		let Opcode::WithdrawalRequest = opcode else {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				"Invalid opcode, expected withdrawal request",
			));
		};

		Ok(Self {
			amount: Codec::codec_deserialize(data)?,
			signature: Codec::codec_deserialize(data)?,
			reveal_fee: Codec::codec_deserialize(data)?,
		})''')],0),
# 15
(CD,[('''	let mut tx = reveal(&deposit_data.serialize_to_vec(), reveal_inputs)?;

	tx.output.push(TxOut {
		value: (commit_amount - deposit_data.reveal_fee).to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});

	Ok(tx)''','''	let data = deposit_data.serialize_to_vec();
	let deposited = TxOut {
		value: commit_amount.to_sat() - deposit_data.reveal_fee.to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	};

	reveal(&data, reveal_inputs).map(|mut tx| {
		tx.output.push(deposited);
		tx
	})''')],0),
]
