B="sbtc-core/src/operations/commit_reveal/"
U,D,W=B+"utils.rs",B+"deposit.rs",B+"withdrawal_request.rs"
MUTS=[
("P13",U,"	let script = op_drop_script(data, revealer_key);\n	let control","	let script = reclaim_script(reclaim_key);\n	let control",1),
("P13",U,"taproot_spend_info(data, revealer_key, reclaim_key)?;\n\n","taproot_spend_info(data, reclaim_key, revealer_key)?;\n\n",1),
("P13",U,"taproot_spend_info(data, revealer_key, reclaim_key)?;\n	Ok","taproot_spend_info(data, reclaim_key, revealer_key)?;\n	Ok",1),
("P13",U,"	let reclaim_script = reclaim_script(reclaim_key);","	let reclaim_script = reclaim_script(revealer_key);",1),
("P13",U,"		spend_info.merkle_root(),","		None,",1),
("P13",U,".chain(once(b'w'))",".chain(once(b'd'))",1),
("P13",U,"		.push_opcode(OP_DROP)\n","",1),
("P13",U,"\"50929b74","\"60929b74",1),
("P13",U,"	witness.push(script);\n	witness.push(control_block.serialize());","	witness.push(control_block.serialize());\n	witness.push(script);",1),
("P13",U,"			sequence: Sequence::MAX,","			sequence: Sequence::ZERO,",0),
("P13",D,"	commit(&deposit_data.serialize_to_vec(), revealer_key, reclaim_key)","	commit(&deposit_data.principal.serialize_to_vec(), revealer_key, reclaim_key)",1),
("P13",D,"(commit_amount - deposit_data.reveal_fee)","(commit_amount)",1),
("P13",W,"(commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)","(commit_amount - withdrawal_data.reveal_fee)",1),
("P13",W,"		script_pubkey: recipient_wallet_address.script_pubkey(),","		script_pubkey: sbtc_wallet_address.script_pubkey(),",1),
("P13",U,"LeafVersion::TapScript))","LeafVersion::from_consensus(0xc2).unwrap()))",1),
# harmless
("P13",U,"			script_sig: Script::new(),\n			sequence: Sequence::MAX,\n			witness,\n","			witness,\n			..Default::default()\n",0),
("P13",U,"""	let mut witness = Witness::new();
	witness.push(script);
	witness.push(control_block.serialize());""","""	let witness = Witness::from_vec(vec![script.to_bytes(), control_block.serialize()]);""",0),
("P13",U,"""	let op_return_bytes: Vec<u8> = stacks_magic_bytes
		.iter()
		.cloned()
		.chain(once(b'w'))
		.collect();
""","""	let _ = once(1);
	let op_return_bytes = [stacks_magic_bytes[0], stacks_magic_bytes[1], b'w'];
""",0),
("P13",U,"""        .add_leaf(1, reveal_script)
        .map_err(|err| CommitRevealError::InvalidTaproot("Invalid reveal script", err))?
        .add_leaf(1, reclaim_script)
        .map_err(|err| CommitRevealError::InvalidTaproot("Invalid reclaim script", err))?
""","""        .add_leaf(1, reclaim_script)
        .map_err(|err| CommitRevealError::InvalidTaproot("Invalid reclaim script", err))?
        .add_leaf_with_ver(1, reveal_script, LeafVersion::TapScript)
        .map_err(|err| CommitRevealError::InvalidTaproot("Invalid reveal script", err))?
""",0),
("P13",W,"""	tx.output.push(TxOut {
		value: (commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)
			.to_sat(),
		script_pubkey: recipient_wallet_address.script_pubkey(),
	});
	tx.output.push(TxOut {
		value: fulfillment_fee.to_sat(),
		script_pubkey: sbtc_wallet_address.script_pubkey(),
	});
""","""	let rest = commit_amount.to_sat() - (withdrawal_data.reveal_fee.to_sat() + fulfillment_fee.to_sat());
	tx.output.extend([(rest, &recipient_wallet_address), (fulfillment_fee.to_sat(), &sbtc_wallet_address)].into_iter().map(|(value, a)| TxOut { value, script_pubkey: a.script_pubkey() }));
""",0),
("P13",D,"""	let mut tx = reveal(&deposit_data.serialize_to_vec(), reveal_inputs)?;
""","""	let data = deposit_data.serialize_to_vec();
	let mut tx = reveal(&data, reveal_inputs)?;
""",0),
]
