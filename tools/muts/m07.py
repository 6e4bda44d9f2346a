C="stacks-core/src/c32.rs"
A="stacks-core/src/address.rs"
U="stacks-core/src/utils.rs"
import os
if not os.path.exists("/repo/"+U) or "impl TryFrom<String> for PrincipalData" not in open("/repo/"+U).read():
    import subprocess
    U=subprocess.check_output("cd /repo; grep -rl 'impl TryFrom<String> for PrincipalData' --include=*.rs .",shell=True,text=True).split()[0][2:]
MUTS=[
("P07",C,"	let checksum = DoubleSha256Hasher::new(&buffer).checksum();","	let checksum = DoubleSha256Hasher::new(&buffer[1..]).checksum();",1),
("P07",C,"encode(&buffer[1..])","encode(&buffer)",1),
("P07",C,"C32_ALPHABET[version as usize] as char","C32_ALPHABET[(version as usize) ^ 2] as char",1),
("P07",C,"if computed_checksum != expected_checksum {","if computed_checksum[..3] != expected_checksum[..3] {",1),
("P07",C,"	let mut buffer_to_check = vec![decoded_version_byte];\n","	let mut buffer_to_check = vec![];\n",1),
("P07",C,"if !address.starts_with('S') || address.len() <= 5 {","if address.len() <= 5 {",1),
("P07",C,"if !address.starts_with('S') || address.len() <= 5 {","if !address.starts_with(['S','s']) || address.len() <= 5 {",1),
("P07",C,"	version_check_decode(&address[1..])","	version_check_decode(address.trim_start_matches('S'))",1),
("P07",C,"	if decoded_data_bytes.len() < 4 {","	if decoded_data_bytes.len() < 3 {",1),
("P07",C,"('L', '1'), ('I', '1')","('L', '1'), ('U', '1')",1),
("P07",A,"		if hash_bytes.len() != HASH160_LENGTH {","		if hash_bytes.len() < HASH160_LENGTH {",1),
("P07",A,"		buffer.copy_from_slice(&hash_bytes);\n","		buffer.copy_from_slice(&hash_bytes);\n		buffer.reverse();\n",1),
("P07",A,"""write!(f, "{}", encode_address(self.version, self.hash.as_ref()))""","""write!(f, "{}", encode_address(self.version, self.hash.as_ref()).to_lowercase())""",1),
("P07",U,"value.split('.').collect()","value.split([':', '.']).collect()",1),
("P07",U,"value.split('.').collect()","value.splitn(2, '.').collect()",0),
("P07",U,"value.split('.').collect()","value.rsplitn(2, '.').collect()",1),
("P07",U,"StacksAddress::try_from(parts[0])?;\n				let","StacksAddress::try_from(parts[1])?;\n				let",1),
("P07",U,"			1 => {\n				let address = StacksAddress::try_from(parts[0])?;","			1 => {\n				let address = StacksAddress::try_from(parts[0].trim())?;",1),
# harmless
("P07",U,"""		let parts: Vec<&str> = value.split('.').collect();

		match parts.len() {
			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 => {
				let address = StacksAddress::try_from(parts[0])?;
				let contract_name =
					ContractName::new(parts[1]).map_err(|err| {
""","""		let parts: Vec<&str> = value.split('.').collect();

		match parts.as_slice() {
			[a] => {
				let address = StacksAddress::try_from(*a)?;
				Ok(Self::Standard(address.into()))
			}
			[a, n] => {
				let address = StacksAddress::try_from(*a)?;
				let contract_name =
					ContractName::new(n).map_err(|err| {
""",0),
("P07",C,"""	if !address.starts_with('S') || address.len() <= 5 {
		return Err(C32Error::InvalidAddress(address.to_string()));
	}

	version_check_decode(&address[1..])""","""	match address.strip_prefix('S') {
		Some(rest) if rest.len() > 4 => version_check_decode(rest),
		_ => Err(C32Error::InvalidAddress(address.to_owned())),
	}""",0),
("P07",C,"""	let encoded = version_check_encode(version, data);
	let address = format!("S{}", encoded);

	address""","""	let mut address = String::from("S");
	address.push_str(&version_check_encode(version, data));
	address""",0),
("P07",C,"""	let mut encoded = encode(&buffer[1..]);
	encoded.insert(0, C32_ALPHABET[version as usize] as char);

	encoded""","""	let body = encode(&buffer[1..]);
	let v = C32_ALPHABET[usize::from(version as u8)] as char;
	format!("{v}{body}")""",0),
("P07",C,"""	let decoded_version_byte = *decoded_version_bytes
		.first()
		.ok_or(C32Error::InvalidC32)?;""","""	let Some(&decoded_version_byte) = decoded_version_bytes.first() else {
		return Err(C32Error::InvalidC32);
	};""",0),
("P07",A,"""		if hash_bytes.len() != HASH160_LENGTH {
			return Err(StacksError::InvalidArguments(
				"Invalid hash length for address",
			));
		}

		let mut buffer = [0; HASH160_LENGTH];
		buffer.copy_from_slice(&hash_bytes);
""","""		let buffer: [u8; HASH160_LENGTH] = hash_bytes.as_slice().try_into().map_err(|_| 
			StacksError::InvalidArguments("Invalid hash length for address"))?;
""",0),
("P07",C,"""	while let Some(i) = encoded.pop() {
		if i != C32_ALPHABET[0] {
			encoded.push(i);
			break;
		}
	}
""","""	while encoded.last() == Some(&C32_ALPHABET[0]) {
		encoded.pop();
	}
""",0),
("P07",C,"""	for byte in input.iter() {
		if *byte == b'0' {
			decoded.push(0);
		} else {
			break;
		}
	}
""","""	let z = input.iter().take_while(|b| **b == b'0').count();
	decoded.extend(std::iter::repeat(0).take(z));
""",0),
]
MUTS+=[("P07",U,"""		let parts: Vec<&str> = value.split('.').collect();

		match parts.len() {
			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 => {
				let address = StacksAddress::try_from(parts[0])?;
				let contract_name =
					ContractName::new(parts[1]).map_err(|err| {
						StacksError::InvalidData(format!(
							"Invalid contract name from {value}: {err}"
						))
					})?;

				Ok(Self::Contract(
					StandardPrincipalData::from(address),
					contract_name,
				))
			}
			_ => Err(StacksError::InvalidData(format!(
				"Principal data from {value} may contain at most 1 dot character"
			))),
		}""","""		match value.split_once('.') {
			None => {
				let address = StacksAddress::try_from(value.as_str())?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			Some((a, n)) => {
				let address = StacksAddress::try_from(a)?;
				let contract_name =
					ContractName::new(n).map_err(|err| {
						StacksError::InvalidData(format!(
							"Invalid contract name from {value}: {err}"
						))
					})?;

				Ok(Self::Contract(
					StandardPrincipalData::from(address),
					contract_name,
				))
			}
		}""",0)]
