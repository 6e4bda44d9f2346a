"""mixed list: bugs written from the statements alone; each has to be reported by some check"""
SCOPE="core"
PROPS="P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P26 P31 P32 P33"
W="sbtc-core/src/operations/op_return/withdrawal_request.rs"
D="sbtc-core/src/operations/op_return/deposit.rs"
U="stacks-core/src/uint.rs"
A="stacks-core/src/address.rs"
L="stacks-core/src/utils.rs"
CN="stacks-core/src/contract_name.rs"
C="stacks-core/src/c32.rs"
K="stacks-core/src/codec.rs"
WA="stacks-core/src/wallet.rs"
WI="stacks-core/src/crypto/wif.rs"
CR="stacks-core/src/crypto/mod.rs"
DD="sbtc-core/src/operations/commit_reveal/deposit.rs"
DU="sbtc-core/src/operations/commit_reveal/utils.rs"
DW="sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"
OM="sbtc-core/src/operations/mod.rs"
OO="sbtc-core/src/operations/utils.rs"
OU="sbtc-core/src/operations/op_return/utils.rs"
WF="sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"
LI="stacks-core/src/lib.rs"
GE="sbtc-cli/src/commands/generate.rs"
CD="sbtc-cli/src/commands/deposit.rs"
CW="sbtc-cli/src/commands/withdraw.rs"
MUTS=[
# 0 parse skips empty outputs in front
(W,[('''	let mut output_iter = tx.output.into_iter();''','''	let mut output_iter =
		tx.output.into_iter().skip_while(|out| out.script_pubkey.is_empty());''')],1),
# 1 magic compared only by first byte
(D,[('''		if magic_bytes(deposit_data.network) != magic_bytes(network) {''','''		if magic_bytes(deposit_data.network)[..1] != magic_bytes(network)[..1] {''')],1),
# 2 op return anywhere (instruction iterator filter)
(D,[('''		let mut instructions_iter = data_output.script_pubkey.instructions();''','''		let mut instructions_iter = data_output
			.script_pubkey
			.instructions()
			.skip_while(|i| matches!(i, Ok(Instruction::PushBytes(b)) if b.is_empty()));''')],1),
# 3 amount of a deposit saturates at 21 million
(D,[('''		let amount = amount_output.value;''','''		let amount = amount_output.value.min(bdk::bitcoin::blockdata::constants::MAX_SEQUENCE as u64);''')],1),
# 4 deposit wallet address read for the marker's network
(D,[('''			BitcoinAddress::from_script(&amount_output.script_pubkey, network)?;''','''			BitcoinAddress::from_script(
				&amount_output.script_pubkey,
				deposit_data.network,
			)?;''')],1),
# 5 dust compared <=
(D,[('''	if amount < dust_amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let outputs''','''	if amount <= dust_amount {
		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
	}

	let outputs''')],1),
# 6 fee output takes the amount when the fee is zero
(W,[('''		fulfillment_amount: fulfillment_fee_output.value,''','''		fulfillment_amount: match fulfillment_fee_output.value {
			0 => recipient_pubkey_output.value,
			fee => fee,
		},''')],1),
# 7 multisig version used for regtest
(W,[('''		BitcoinNetwork::Bitcoin => StacksAddressVersion::MainnetSingleSig,
		_ => StacksAddressVersion::TestnetSingleSig,''','''		BitcoinNetwork::Bitcoin => StacksAddressVersion::MainnetSingleSig,
		BitcoinNetwork::Regtest => StacksAddressVersion::TestnetMultiSig,
		_ => StacksAddressVersion::TestnetSingleSig,''')],1),
# 8 builder: dust fee only required when nonzero
(W,[('''	if fulfillment_amount < sbtc_wallet_dust_amount {''','''	if fulfillment_amount != 0 && fulfillment_amount < sbtc_wallet_dust_amount {''')],1),
# 9 signature over the truncated amount
(W,[('''			drawee_stacks_private_key,
			payee_bitcoin_address,
			amount,
		);
''','''			drawee_stacks_private_key,
			payee_bitcoin_address,
			amount & 0xffff_ffff_ffff,
		);
''')],1),
# 10 builder orders equal outputs from a hash map (fulfil without reorder)
(WF,[('''	partial_tx.unsigned_tx.output =
		reorder_outputs(partial_tx.unsigned_tx.output, outputs);
''','''	if partial_tx.unsigned_tx.output.len() > 2 {
		partial_tx.unsigned_tx.output =
			reorder_outputs(partial_tx.unsigned_tx.output, outputs);
	}
''')],1),
# 11 change is put first among equals
(OU,[('''.unwrap_or(usize::MAX); // Change amount''','''.unwrap_or(2); // Change amount''')],1),
# 12 pop_back
(OU,[('''VecDeque::pop_front''','''VecDeque::pop_back''')],1),
# 13 uint codec little endian in both directions
(U,[('''		dest.write_all(&self.to_be_bytes())
	}
''','''		dest.write_all(&self.to_le_bytes())
	}
'''),('''		Self::from_be_bytes(buffer).map_err(|_| {''','''		Self::from_le_bytes(buffer).map_err(|_| {''')],1),
# 14 address text of the address with version of another
(A,[('''		encode_address(address.version, address.hash.as_ref())
''','''		encode_address(
			match address.version {
				AddressVersion::MainnetMultiSig => {
					AddressVersion::MainnetSingleSig
				}
				version => version,
			},
			address.hash.as_ref(),
		)
''')],1),
# 15 short hashes are padded
(A,[('''		if hash_bytes.len() != HASH160_LENGTH {''','''		if hash_bytes.len() > HASH160_LENGTH {'''),('''		buffer.copy_from_slice(&hash_bytes);''','''		buffer[..hash_bytes.len()].copy_from_slice(&hash_bytes);''')],1),
# 16 p2sh sorts its keys
(A,[('''	for key in pub_keys {
		builder = builder.push_slice(&key.serialize());''','''	let mut keys: Vec<_> = pub_keys.into_iter().collect();
	keys.dedup();

	for key in keys {
		builder = builder.push_slice(&key.serialize());''')],1),
# 17 principal: rsplit so the address is the last part
(L,[('''		let parts: Vec<&str> = value.split('.').collect();''','''		let parts: Vec<&str> = value.trim_end_matches('.').split('.').collect();''')],1),
# 18 principal: splitn
(L,[('''value.split('.').collect();''','''value.splitn(3, '.').collect();''')],0),
# 19 contract name regex allows 41 via {0,40}
(CN,[('''		CONTRACT_MIN_NAME_LENGTH - 1,
		CONTRACT_MAX_NAME_LENGTH - 1''','''		CONTRACT_MIN_NAME_LENGTH - 1,
		CONTRACT_MAX_NAME_LENGTH''')],1),
# 20 c32: trailing checksum compared on its first 3 bytes
(C,[('''	if computed_checksum != expected_checksum {''','''	if computed_checksum[..3] != expected_checksum[..3] {''')],1),
# 21 c32: lower case prefix accepted by folding the input
(C,[('''	let address = address.as_ref();

	if !address.starts_with('S')''','''	let address = address.as_ref().trim();

	if !address.starts_with('S')''')],1),
# 22 codec: Amount capped at MAX_MONEY when read
(K,[('''		Ok(Self::from_sat(u64::from_be_bytes(buffer)))''','''		Ok(Self::from_sat(u64::from_be_bytes(buffer)).min(Self::MAX_MONEY))''')],1),
# 23 codec: recovery id masked
(K,[('''RecoveryId::from_i32(id_buffer[0] as i32)''','''RecoveryId::from_i32((id_buffer[0] & 3) as i32)''')],1),
# 24 codec: script read limited
(K,[('''		data.read_to_end(&mut buffer)?;''','''		data.by_ref().take(10_000).read_to_end(&mut buffer)?;'''),('''use std::io;''','''use std::io::{self, Read};''')],1),
# 25 serialize swallows
(K,[('''		dest.write_all(&[id])?;
		dest.write_all(&signature)''','''		dest.write_all(&[id])?;
		dest.write(&signature).map(|_| ())''')],1),
# 26 wallet: index masked for bitcoin
(WA,[('''	path.push_str(&format!("{}'/0/0", index));''','''	path.push_str(&format!("{}'/0/0", index & 0xFFFF));''')],1),
# 27 wallet: mnemonic lower cased
(WA,[('''Mnemonic::from_str(mnemonic.as_ref())?;''','''Mnemonic::from_str(&mnemonic.as_ref().to_lowercase())?;''')],1),
# 28 wallet: random only fills 16 bytes of entropy
(WA,[('''		let entropy: [u8; 32] = random();''','''		let mut entropy = [0u8; 32];
		entropy[..16].copy_from_slice(&random::<[u8; 16]>());''')],1),
# 29 wif: network by the low bit
(WI,[('''		let valid_network_byte =
			WIFPrefix::iter().any(|prefix| prefix as u8 == self.0[0]);''','''		let valid_network_byte =
			WIFPrefix::iter().any(|prefix| prefix as u8 <= self.0[0]);''')],1),
# 30 wif: checksum over 33 bytes in both
(WI,[('''		let bytes_to_hash = bytes[..34].to_vec();''','''		let bytes_to_hash = bytes[..33].to_vec();'''),('''DoubleSha256Hasher::new(&self.0[..34])''','''DoubleSha256Hasher::new(&self.0[..33])''')],1),
# 31 hashing: from_hex trims 0x
(CR,[('''		Self::from_bytes(&hex::decode(data.as_ref().as_bytes())?)''','''		Self::from_bytes(&hex::decode(
			data.as_ref().trim_start_matches("0x").as_bytes(),
		)?)''')],1),
# 32 reveal: sequence enables locktime
(DU,[('''sequence: Sequence::MAX''','''sequence: Sequence(144)''')],1),
# 33 leaf depth swapped: same depth but reveal script leaf version
(DU,[('''		.push_x_only_key(reclaim_key)
		.push_opcode(OP_CHECKSIG)''','''		.push_x_only_key(reclaim_key)
		.push_opcode(bdk::bitcoin::blockdata::opcodes::all::OP_CHECKSIGVERIFY)''')],1),
# 34 reveal: merkle root dropped when small data
(DU,[('''		spend_info.merkle_root(),''','''		spend_info.merkle_root().filter(|_| spend_info.as_script_map().len() > 1),''')],1),
# 35 deposit data: zero fee skipped
(DD,[('''		self.reveal_fee.codec_serialize(dest)''','''		if self.reveal_fee == Amount::ZERO {
			return Ok(());
		}
		self.reveal_fee.codec_serialize(dest)''')],1),
# 36 commit withdrawal: fulfilment fee in place of reveal fee
(DW,[('''		value: (commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)
			.to_sat(),''','''		value: commit_amount
			.checked_sub(withdrawal_data.reveal_fee + fulfillment_fee)
			.unwrap_or(Amount::ZERO)
			.to_sat(),''')],1),
# 37 opcode: low bits
(OM,[('''		Self::from_repr(buffer[0])''','''		Self::from_repr(buffer[0] & 0x7F)''')],1),
# 38 magic signet
(OM,[('''		_ => [b'i', b'd'],''','''		Network::Signet => [b'T', b'2'],
		_ => [b'i', b'd'],''')],1),
# 39 wallet opened for testnet
(OO,[('''		private_key.network,
		MemoryDatabase''','''		bdk::bitcoin::Network::Testnet,
		MemoryDatabase''')],1),
# 40 Network conversions: regtest is mainnet
(LI,[('''			BitcoinNetwork::Bitcoin => Network::Mainnet,''','''			BitcoinNetwork::Bitcoin | BitcoinNetwork::Signet => Network::Mainnet,''')],1),
# 41 network text
(LI,[('''#[strum(ascii_case_insensitive)]
#[strum(serialize_all = "lowercase")]''','''#[strum(serialize_all = "lowercase")]''')],1),
# 42 generate: accounts keyed from one
(GE,[('''			.map(|(i, creds)| (i.to_string(), creds))''','''			.map(|(i, creds)| ((i % 100).to_string(), creds))''')],1),
# 43 generate: wif of other type
(GE,[('''creds.wif_p2tr().to_string()''','''creds.wif_p2wpkh().to_string()''')],1),
# 44 cli deposit: wallet for the key's network
(CD,[('''		deposit.network,
		MemoryDatabase''','''		private_key.network,
		MemoryDatabase''')],1),
# 45 cli withdraw: drawee is the payer
(CW,[('''		PrivateKey::from_wif(&withdrawal.drawee_wif)?.inner;''','''		PrivateKey::from_wif(&withdrawal.drawee_wif)
			.unwrap_or(private_key)
			.inner;''')],1),
# 46 hash160 from hex of longer input truncated
(CR,[('''		Self::from_bytes(&hex::decode(value.0)?)''','''		let bytes = hex::decode(value.0)?;
		Self::from_bytes(&bytes[..bytes.len().min(LENGTH)])''')],1),
# 47 recovered key: low-s normalised / uncompressed address
(A,[('''	Hash160Hasher::new(key.serialize())
}

fn hash_p2sh''','''	Hash160Hasher::new(key.serialize_uncompressed())
}

fn hash_p2sh''')],1),
# 48 fulfilment tx pays a changed script
(WF,[('''	let recipient_script = recipient_bitcoin_address.script_pubkey();

	Ok([(data_script, 0), (recipient_script, amount)])''','''	let recipient_script = recipient_bitcoin_address.script_pubkey();
	let amount = amount.max(recipient_script.dust_value().to_sat());

	Ok([(data_script, 0), (recipient_script, amount)])''')],1),
# 49 parsed wallet of a withdrawal: payee
(W,[('''		sbtc_wallet,
	})''','''		sbtc_wallet: if fulfillment_fee_output.value == 0 {
			recipient_address_copy
		} else {
			sbtc_wallet
		},
	})'''),('''	let drawee_stacks_public_key = recover''','''	let recipient_address_copy = recipient_address.clone();
	let drawee_stacks_public_key = recover''')],1),
]
