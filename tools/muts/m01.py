C="stacks-core/src/codec.rs"
A="stacks-core/src/address.rs"
K="stacks-core/src/c32.rs"
N="stacks-core/src/contract_name.rs"
U="stacks-core/src/utils.rs"
I="stacks-core/src/uint.rs"
Y="stacks-core/src/crypto/mod.rs"
R="sbtc-core/src/operations/op_return/withdrawal_request.rs"
D="sbtc-core/src/operations/op_return/deposit.rs"
M="sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"
O="sbtc-core/src/operations/mod.rs"
W="stacks-core/src/crypto/wif.rs"
MUTS=[
("P01",C,"""		let id = RecoveryId::from_i32(id_buffer[0] as i32)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
""","""		let id = RecoveryId::from_i32(id_buffer[0] as i32).unwrap();
""",1),
("P01",C,"RecoveryId::from_i32(id_buffer[0] as i32)\n","RecoveryId::from_i32(i32::from(id_buffer[0]))\n",0),
("P01",C,"""		Self::from_compact(&signature_buffer, id)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))""","""		Ok(Self::from_compact(&signature_buffer, id).expect("64 bytes"))""",1),
("P01",A,"""		let version = AddressVersion::try_from(version_buffer[0])
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
""","""		let version = AddressVersion::try_from(version_buffer[0]).unwrap();
""",1),
("P01",A,"""		if hash_bytes.len() != HASH160_LENGTH {
""","""		if hash_bytes.len() > HASH160_LENGTH {
""",1),
("P01",A,"""		let mut buffer = [0; HASH160_LENGTH];
		buffer.copy_from_slice(&hash_bytes);

		Ok(Self::new(version, buffer.into()))""","""		let hash = Hash160Hasher::from_bytes(&hash_bytes)?;

		Ok(Self::new(version, hash))""",0),
("P01",K,"""		if !input.is_ascii() || input.is_empty() {""".replace("\t\t","\t"),"	if input.is_empty() {",1),
("P01",K,"	if !input.is_ascii() || input.is_empty() {","	if !input.is_ascii() {",1),
("P01",K,"	if !input.is_ascii() {\n		return Err(C32Error::InvalidC32);\n	}\n\n	let mut decoded","	let mut decoded",1),
("P01",K,"	if decoded_data_bytes.len() < 4 {","	if decoded_data_bytes.len() < 3 {",1),
("P01",K,"	if decoded_data_bytes.len() < 4 {","	if decoded_data_bytes.len() < 5 {",0),
("P01",K,"""	let decoded_version_byte = *decoded_version_bytes
		.first()
		.ok_or(C32Error::InvalidC32)?;""","""	let decoded_version_byte = decoded_version_bytes[0];""",1),
("P01",K,"	if !address.starts_with('S') || address.len() <= 5 {","	if address.len() <= 5 {",1),
("P01",K,"	if !address.starts_with('S') || address.len() <= 5 {","	if !address.starts_with('S') && address.len() <= 5 {",1),
("P01",K,"	version_check_decode(&address[1..])","	version_check_decode(address.trim_start_matches('S'))",0),
("P01",K,"	version_check_decode(&address[1..])","	version_check_decode(address.strip_prefix('S').unwrap_or(\"\"))",0),
("P01",K,"		decoded.push(u8::try_from(carry)?);","		decoded.push(u8::try_from(carry & 0xFF).unwrap());",0),
("P01",K,"""		let Some(bits) = C32_BYTE_MAP.get(*byte as usize).unwrap() else {""","""		let Some(bits) = C32_BYTE_MAP[*byte as usize] else {""",2),
("P01",N,"""		let contract_name_string = String::from_utf8(name_buffer)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
""","""		let contract_name_string = String::from_utf8(name_buffer).unwrap();
""",1),
("P01",N,"""		let mut name_buffer = vec![0u8; contract_name_length];
		data.read_exact(&mut name_buffer)?;
""","""		let mut name = [0u8; CONTRACT_MAX_NAME_LENGTH];
		data.read_exact(&mut name[..contract_name_length])?;
		let name_buffer = name[..contract_name_length].to_vec();
""",1),
("P01",N,"""		let mut name_buffer = vec![0u8; contract_name_length];
		data.read_exact(&mut name_buffer)?;
""","""		let mut name = [0u8; 255];
		data.read_exact(&mut name[..contract_name_length])?;
		let name_buffer = name[..contract_name_length].to_vec();
""",0),
("P01",U,"""			1 => {
				let address = StacksAddress::try_from(parts[0])?;
""","""			0 | 1 => {
				let address = StacksAddress::try_from(parts[0])?;
""",0),
("P01",U,"""				let contract_name =
					ContractName::new(parts[1]).map_err(|err| {
						StacksError::InvalidData(format!(
							"Invalid contract name from {value}: {err}"
						))
					})?;
""","""				let contract_name = ContractName::new(parts[1]).unwrap();
""",1),
("P01",U,"""			2 => {
				let address""","""			1.. => {
				let address""",0),
("P01",U,"""			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 =>""","""			1 | 2 if value.ends_with('.') => {
				let address = StacksAddress::try_from(&value[..value.len() - 2])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 =>""",1),
("P01",U,"PrincipalTypeByte::from_repr(type_buffer[0])\n			.ok_or_else(|| {\n				io::Error::new(\n					io::ErrorKind::InvalidData,\n					format!(\"Invalid principal type: {}\", type_buffer[0]),\n				)\n			})?;","PrincipalTypeByte::from_repr(type_buffer[0]).unwrap();",1),
("P01",I,"""		if bytes.len() / 8 != N {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_le""","""		if bytes.len() / 8 > N + 1 {
			return Err(StacksError::InvalidUintBytes(bytes.len()));
		}

		let mut ret = [0u64; N];
		for i in 0..(bytes.len() / 8) {
			let mut next_bytes = [0u8; 8];
			next_bytes.copy_from_slice(&bytes[8 * i..(8 * (i + 1))]);

			let next = u64::from_le""",1),
("P01",I,"		Self::from_le_bytes(hex::decode(data.as_ref())?)","		Self::from_le_bytes(hex::decode(data.as_ref()).unwrap())",1),
("P01",Y,"Self::from_bytes(&hex::decode(data.as_ref().as_bytes())?)","Self::from_bytes(&hex::decode(data.as_ref()).unwrap_or_default())",0),
("P01",R,"	let data_output = output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;","	let data_output = output_iter.next().unwrap();",1),
("P01",R,"""	let recipient_address = BitcoinAddress::from_script(
		&recipient_pubkey_output.script_pubkey,
		network,
	)
	.map_err(|_| SBTCError::NotSBTCOperation)?;
""","""	let recipient_address = BitcoinAddress::from_script(
		&recipient_pubkey_output.script_pubkey,
		network,
	)
	.unwrap();
""",1),
("P01",R,"""	let recipient_pubkey_output =
		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;
""","""	let recipient_pubkey_output = output_iter.nth(0).ok_or_else(|| SBTCError::NotSBTCOperation)?;
""",0),
("P01",R,"""		.recover_ecdsa(&signing_msg, signature)
		.map_err(|err| {
			SBTCError::SECPError(
				"Could not recover public key from signature",
				err,
			)
		})
}

/// Creates""","""		.recover_ecdsa(&signing_msg, signature)
		.map_err(|_| SBTCError::NotSBTCOperation)
}

/// Creates""",0),
("P01",D,"""		let deposit_data = DepositOutputData::codec_deserialize(&mut data)
			.map_err(|_| DepositParseError::NotSbtcOp)?;
""","""		let deposit_data = DepositOutputData::codec_deserialize(&mut &data[3..])
			.map_err(|_| DepositParseError::NotSbtcOp)?;
""",1),
("P01",D,"""			.get(&magic_bytes_buffer)
			.cloned()
			.ok_or(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			))?;
""","""			[&magic_bytes_buffer];
""",1),
("P01",M,"""		let opcode = Opcode::codec_deserialize(data)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		if""","""		let opcode = Opcode::codec_deserialize(data).unwrap();

		if""",1),
]
