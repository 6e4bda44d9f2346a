N="stacks-core/src/contract_name.rs"
U="stacks-core/src/utils.rs"
X="stacks-core/src/uint.rs"
C="stacks-core/src/codec.rs"
A="stacks-core/src/address.rs"
D="sbtc-core/src/operations/op_return/deposit.rs"
F="sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"
W="sbtc-core/src/operations/op_return/withdrawal_request.rs"
MUTS=[
("P32",N,"		let mut name_buffer = vec![0u8; contract_name_length];\n		data.read_exact(&mut name_buffer)?;","		let mut name_buffer = Vec::with_capacity(contract_name_length);\n		std::io::Read::read_to_end(&mut std::io::Read::take(&mut *data, contract_name_length as u64), &mut name_buffer)?;",1),
("P32",N,"length_buffer[0] as usize","(length_buffer[0] & 0x3f) as usize",1),
("P32",A,"		let version = AddressVersion::try_from(version_buffer[0])","		let version = AddressVersion::try_from(version_buffer[0] & 0x1f)",1),
("P32",C,"data.read_exact(&mut buffer)?;","let _ = data.read(&mut buffer)?;",1),
("P32",A,"		let mut hash_buffer = [0; HASH160_LENGTH];\n		data.read_exact(&mut hash_buffer)?;","		let mut hash_buffer = [0; HASH160_LENGTH];\n		let mut n = 0; while n < HASH160_LENGTH { let k = data.read(&mut hash_buffer[n..])?; if k == 0 { break } n += k; }",1),
("P32",U,"principal_type = PrincipalTypeByte::from_repr(type_buffer[0])","principal_type = PrincipalTypeByte::from_repr(type_buffer[0] | 0x04)",1),
("P02 P32",N,"		let mut name_buffer = vec![0u8; contract_name_length];\n		data.read_exact(&mut name_buffer)?;","		let mut buffer = [0u8; 255];\n		data.read_exact(&mut buffer[..contract_name_length])?; let name_buffer = buffer[..contract_name_length].to_vec();",0),
("P02 P32",N,"		let mut name_buffer = vec![0u8; contract_name_length];\n		data.read_exact(&mut name_buffer)?;","		let mut name_buffer = Vec::with_capacity(contract_name_length);\n		for _ in 0..contract_name_length { let mut b = [0u8; 1]; data.read_exact(&mut b)?; name_buffer.push(b[0]); }",0),
("P02 P32",N,"		let mut name_buffer = vec![0u8; contract_name_length];\n		data.read_exact(&mut name_buffer)?;","		let mut name_buffer = Vec::with_capacity(contract_name_length);\n		let n = std::io::Read::read_to_end(&mut std::io::Read::take(&mut *data, contract_name_length as u64), &mut name_buffer)?; if n != contract_name_length { return Err(io::ErrorKind::UnexpectedEof.into()); }",0),
("P02 P32",U,"""		match principal_type {
			PrincipalTypeByte::Standard => {
				let standard_data =
					StandardPrincipalData::codec_deserialize(data)?;

				Ok(""","""		match principal_type {
			PrincipalTypeByte::Standard => {
				let standard_data =
					StandardPrincipalData::codec_deserialize(data)?;
				let _ = &standard_data;
				Ok(""",0),
]
