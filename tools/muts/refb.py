# refactorings of stacks-core and the rest of sbtc-core's operations: every check stays quiet
PROPS="P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P26 P31 P32 P33"
SCOPE="core"
O="sbtc-core/src/operations/"
WR,WF=O+"op_return/withdrawal_request.rs",O+"op_return/withdrawal_fulfillment.rs"
S="stacks-core/src/"
MUTS=[
# 0 message pieces
(WR,[('''	let signing_data: Vec<u8> = iter::empty()
		.chain(amount.serialize_to_vec())
		.chain(payee_bitcoin_address.script_pubkey().as_bytes().to_vec())
		.collect();
''','''	let mut signing_data = amount.to_be_bytes().to_vec();
	signing_data.extend_from_slice(
		payee_bitcoin_address.script_pubkey().as_bytes(),
	);
	let encoded_data = hex::encode(&signing_data);
'''),('''		"Withdraw request for {:} satoshis to the bitcoin address {:} ({:})",
		amount,
		payee_bitcoin_address,
		hex::encode(signing_data)
''','''		"Withdraw request for {amount} satoshis to the bitcoin address {payee_bitcoin_address} ({encoded_data})"
'''),('''	let msg_content: Vec<u8> = iter::empty()
		.chain(iter::once(STACKS_SIGNATURE_PREFIX.len() as u8))
		.chain(STACKS_SIGNATURE_PREFIX.iter().copied())
		.chain(iter::once(data.as_ref().len() as u8))
		.chain(data.as_ref().iter().copied())
		.collect();
''','''	let data = data.as_ref();
	let mut msg_content =
		Vec::with_capacity(2 + STACKS_SIGNATURE_PREFIX.len() + data.len());
	for part in [STACKS_SIGNATURE_PREFIX, data] {
		msg_content.push(part.len() as u8);
		msg_content.extend_from_slice(part);
	}
'''),("use std::{collections::HashMap, io, iter};","use std::{collections::HashMap, io};")],0),
# 1 recover with match
(WR,[('''	Secp256k1::new()
		.recover_ecdsa(&signing_msg, signature)
		.map_err(|err| {
			SBTCError::SECPError(
				"Could not recover public key from signature",
				err,
			)
		})''','''	let secp = Secp256k1::verification_only();
	match secp.recover_ecdsa(&signing_msg, signature) {
		Ok(public_key) => Ok(public_key),
		Err(err) => Err(SBTCError::SECPError(
			"Could not recover public key from signature",
			err,
		)),
	}'''),('''	Secp256k1::new().sign_ecdsa_recoverable(&msg, drawee_stacks_private_key)''','''	let secp = Secp256k1::signing_only();
	secp.sign_ecdsa_recoverable(&msg, drawee_stacks_private_key)''')],0),
# 2 network of magic helper
(WF,[('''		let network_magic_bytes = [
			BitcoinNetwork::Bitcoin,
			BitcoinNetwork::Testnet,
			BitcoinNetwork::Signet,
			BitcoinNetwork::Regtest,
		]
		.into_iter()
		.map(|network| (magic_bytes(network), network))
		.collect::<HashMap<[u8; 2], BitcoinNetwork>>();

		let network = network_magic_bytes
			.get(&magic_bytes_buffer)
			.cloned()
			.ok_or(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Unknown magic bytes: {:?}", magic_bytes_buffer),
			))?;
''','''		let network = network_from_magic_bytes(magic_bytes_buffer)?;
'''),('''impl Codec for ParsedWithdrawalFulfillmentData {''','''fn network_from_magic_bytes(magic: [u8; 2]) -> io::Result<BitcoinNetwork> {
	for network in [
		BitcoinNetwork::Bitcoin,
		BitcoinNetwork::Testnet,
		BitcoinNetwork::Regtest,
		BitcoinNetwork::Signet,
	] {
		if magic_bytes(network) == magic {
			return Ok(network);
		}
	}

	Err(io::Error::new(
		io::ErrorKind::InvalidData,
		format!("Unknown magic bytes: {:?}", magic),
	))
}

impl Codec for ParsedWithdrawalFulfillmentData {'''),("use std::{collections::HashMap, io};","use std::io;"),('''		let chain_tip = BlockId::codec_deserialize(data)?;

		Ok(Self { network, chain_tip })''','''		BlockId::codec_deserialize(data)
			.map(|chain_tip| Self { network, chain_tip })''')],0),
# 3 codec of amounts through u64, buffers on the heap
(S+"codec.rs",[('''		dest.write_all(&self.to_sat().to_be_bytes())''','''		self.to_sat().codec_serialize(dest)'''),('''		let mut buffer = [0; 8];
		data.read_exact(&mut buffer)?;

		Ok(Self::from_sat(u64::from_be_bytes(buffer)))''','''		u64::codec_deserialize(data).map(Self::from_sat)'''),('''		let mut bytes = [0; 8];
		data.read_exact(&mut bytes)?;

		Ok(Self::from_be_bytes(bytes))''','''		let mut value = 0u64;
		let mut bytes = [0u8; 8];
		data.read_exact(&mut bytes)?;
		for byte in bytes {
			value = (value << 8) | u64::from(byte);
		}
		Ok(value)'''),('''		let (id, signature) = self.serialize_compact();

		let id: u8 = id.to_i32().try_into().unwrap();

		dest.write_all(&[id])?;
		dest.write_all(&signature)''','''		let (id, signature) = self.serialize_compact();

		let mut bytes = [0u8; 65];
		bytes[0] = id.to_i32() as u8;
		bytes[1..].copy_from_slice(&signature);

		dest.write_all(&bytes)''')],0),
# 4 signature read in one go
(S+"codec.rs",[('''		let mut id_buffer = [0; 1];
		data.read_exact(&mut id_buffer)?;

		let id = RecoveryId::from_i32(id_buffer[0] as i32)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		let mut signature_buffer = [0; 64];
		data.read_exact(&mut signature_buffer)?;

		Self::from_compact(&signature_buffer, id)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))''','''		fn invalid(
			err: bdk::bitcoin::secp256k1::Error,
		) -> io::Error {
			io::Error::new(io::ErrorKind::InvalidData, err)
		}

		let mut buffer = [0; 65];
		data.read_exact(&mut buffer)?;
		let (id, signature) = buffer.split_at(1);

		RecoveryId::from_i32(i32::from(id[0]))
			.and_then(|id| Self::from_compact(signature, id))
			.map_err(invalid)''')],0),
# 5 contract names
(S+"contract_name.rs",[('''		if contract_name.len() < CONTRACT_MIN_NAME_LENGTH
			&& contract_name.len() > CONTRACT_MAX_NAME_LENGTH
		{
			Err(ContractNameError::InvalidLength)
		} else if CONTRACT_NAME_REGEX.is_match(contract_name) {
			Ok(Self(contract_name.to_string()))
		} else {
			Err(ContractNameError::InvalidFormat)
		}''','''		let length = contract_name.len();
		if length < CONTRACT_MIN_NAME_LENGTH && length > CONTRACT_MAX_NAME_LENGTH
		{
			return Err(ContractNameError::InvalidLength);
		}
		if !CONTRACT_NAME_REGEX.is_match(contract_name) {
			return Err(ContractNameError::InvalidFormat);
		}

		Ok(Self(contract_name.to_owned()))'''),('''		let contract_name_length = length_buffer[0] as usize;

		let mut name_buffer = vec![0u8; contract_name_length];
		data.read_exact(&mut name_buffer)?;

		let contract_name_string = String::from_utf8(name_buffer)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		Self::new(&contract_name_string)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))''','''		let [contract_name_length] = length_buffer;

		let mut buffer = [0u8; u8::MAX as usize];
		let name_buffer = &mut buffer[..usize::from(contract_name_length)];
		data.read_exact(name_buffer)?;

		let contract_name = std::str::from_utf8(name_buffer)
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		contract_name
			.try_into()
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))''')],0),
# 6 principals
(S+"utils.rs",[('''		let principal_type = PrincipalTypeByte::from_repr(type_buffer[0])
			.ok_or_else(|| {
				io::Error::new(
					io::ErrorKind::InvalidData,
					format!("Invalid principal type: {}", type_buffer[0]),
				)
			})?;

		match principal_type {
			PrincipalTypeByte::Standard => {
				let standard_data =
					StandardPrincipalData::codec_deserialize(data)?;

				Ok(Self::Standard(standard_data))
			}
			PrincipalTypeByte::Contract => {
				let standard_data =
					StandardPrincipalData::codec_deserialize(data)?;
				let contract_name = ContractName::codec_deserialize(data)?;

				Ok(Self::Contract(standard_data, contract_name))
			}
		}''','''		let Some(principal_type) = PrincipalTypeByte::from_repr(type_buffer[0])
		else {
			return Err(io::Error::new(
				io::ErrorKind::InvalidData,
				format!("Invalid principal type: {}", type_buffer[0]),
			));
		};

		let standard_data = StandardPrincipalData::codec_deserialize(data)?;

		Ok(match principal_type {
			PrincipalTypeByte::Standard => Self::Standard(standard_data),
			PrincipalTypeByte::Contract => Self::Contract(
				standard_data,
				ContractName::codec_deserialize(data)?,
			),
		})'''),('''		match self {
			Self::Standard(data) => {
				dest.write_all(&[PrincipalTypeByte::Standard as u8])?;
				data.codec_serialize(dest)
			}
			Self::Contract(data, contract_name) => {
				dest.write_all(&[PrincipalTypeByte::Contract as u8])?;
				data.codec_serialize(dest)?;
				contract_name.codec_serialize(dest)
			}
		}''','''		let (kind, data, name) = match self {
			Self::Standard(data) => (PrincipalTypeByte::Standard, data, None),
			Self::Contract(data, name) => {
				(PrincipalTypeByte::Contract, data, Some(name))
			}
		};

		dest.write_all(&[kind as u8])?;
		data.codec_serialize(dest)?;
		if let Some(name) = name {
			name.codec_serialize(dest)?;
		}
		Ok(())''')],0),
# 7 principal texts by split_once
(S+"utils.rs",[('''		let parts: Vec<&str> = value.split('.').collect();

		match parts.len() {
			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 => {
				let address = StacksAddress::try_from(parts[0])?;
				let contract_name =
					ContractName::new(parts[1]).map_err(|err| {''','''		let parts: Vec<&str> = value.split('.').collect();

		match parts.as_slice() {
			[address] => Ok(StacksAddress::try_from(*address)?.into()),
			[address, name] => {
				let address = StacksAddress::try_from(*address)?;
				let contract_name =
					ContractName::new(name).map_err(|err| {''')],0),
# 8 principal texts by iterator
(S+"utils.rs",[('''		let parts: Vec<&str> = value.split('.').collect();

		match parts.len() {
			1 => {
				let address = StacksAddress::try_from(parts[0])?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			2 => {
				let address = StacksAddress::try_from(parts[0])?;
				let contract_name =
					ContractName::new(parts[1]).map_err(|err| {
						StacksError::InvalidData(format!(
							"Invalid contract name from {value}: {err}"
						))
					})?;

				Ok(Self::Contract(
					StandardPrincipalData::from(address),
					contract_name,
				))
			}
			_ => Err(''','''		let mut parts = value.split('.');
		match (parts.next(), parts.next(), parts.next()) {
			(Some(address), None, _) => {
				let address = StacksAddress::try_from(address)?;
				Ok(Self::Standard(StandardPrincipalData::from(address)))
			}
			(Some(address), Some(name), None) => {
				let address = StacksAddress::try_from(address)?;
				let contract_name =
					ContractName::new(name).map_err(|err| {
						StacksError::InvalidData(format!(
							"Invalid contract name from {value}: {err}"
						))
					})?;

				Ok(Self::Contract(
					StandardPrincipalData::from(address),
					contract_name,
				))
			}
			_ => Err(''')],0),
# 9 address
(S+"address.rs",[('''		let version = AddressVersion::try_from(version_buffer[0])
			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;

		let mut hash_buffer = [0; HASH160_LENGTH];
		data.read_exact(&mut hash_buffer)?;

		let hash = Hash160Hasher::from_bytes(&hash_buffer).unwrap();

		Ok(Self { version, hash })''','''		let version: AddressVersion = match version_buffer[0].try_into() {
			Ok(version) => version,
			Err(err) => {
				let err: StacksError = err;
				return Err(io::Error::new(io::ErrorKind::InvalidData, err));
			}
		};

		let mut hash_buffer = [0; HASH160_LENGTH];
		data.read_exact(&mut hash_buffer)?;

		Ok(Self::new(version, hash_buffer.into()))'''),('''		if hash_bytes.len() != HASH160_LENGTH {
			return Err(StacksError::InvalidArguments(
				"Invalid hash length for address",
			));
		}

		let mut buffer = [0; HASH160_LENGTH];
		buffer.copy_from_slice(&hash_bytes);

		Ok(Self::new(version, buffer.into()))''','''		let hash: [u8; HASH160_LENGTH] =
			hash_bytes.try_into().map_err(|_| {
				StacksError::InvalidArguments("Invalid hash length for address")
			})?;

		Ok(Self::new(version, hash.into()))'''),('''		write!(f, "{}", encode_address(self.version, self.hash.as_ref()))''','''		f.write_str(&String::from(self.clone()))''')],0),
# 10 script hashes
(S+"address.rs",[('''	let mut builder = Builder::new();
	let mut key_counter = 0;

	builder = builder.push_int(signature_threshold as i64);

	for key in pub_keys {
		builder = builder.push_slice(&key.serialize());
		key_counter += 1;
	}

	builder = builder.push_int(key_counter);
	builder = builder.push_opcode(OP_CHECKMULTISIG);

	let script = builder.into_script();
	let script_hash = Hash160Hasher::new(script.as_bytes());

	script_hash''','''	let (builder, key_count) = pub_keys.into_iter().fold(
		(Builder::new().push_int(signature_threshold as i64), 0),
		|(builder, count), key| {
			(builder.push_slice(&key.serialize()), count + 1)
		},
	);

	let script = builder
		.push_int(key_count)
		.push_opcode(OP_CHECKMULTISIG)
		.into_script();

	Hash160Hasher::new(script.as_bytes())'''),('''	let key_hash_hasher = Hash160Hasher::new(key.serialize());
	let key_hash = key_hash_hasher.as_ref();
	let key_hash_len = key_hash.len();

	let mut buff = Vec::with_capacity(key_hash_len + 2);
	buff.push(0);
	buff.push(key_hash_len as u8);
	buff.extend_from_slice(key_hash);

	Hash160Hasher::new(&buff)''','''	let key_hash = hash_p2pkh(key);

	let mut buff = [0; HASH160_LENGTH + 2];
	buff[1] = HASH160_LENGTH as u8;
	buff[2..].copy_from_slice(key_hash.as_bytes());

	Hash160Hasher::new(buff)''')],0),
# 11 c32 loops
(S+"c32.rs",[('''	while let Some(i) = encoded.pop() {
		if i != C32_ALPHABET[0] {
			encoded.push(i);
			break;
		}
	}

	for i in data {
		if *i == 0 {
			encoded.push(C32_ALPHABET[0]);
		} else {
			break;
		}
	}

	encoded.reverse();

	String::from_utf8(encoded).unwrap()''','''	while encoded.last() == Some(&C32_ALPHABET[0]) {
		encoded.pop();
	}

	let leading_zeroes = data.iter().take_while(|byte| **byte == 0).count();
	encoded.extend(std::iter::repeat(C32_ALPHABET[0]).take(leading_zeroes));

	encoded.reverse();

	String::from_utf8(encoded).unwrap()''')],0),
# 12 version check
(S+"c32.rs",[('''	let mut buffer = vec![version as u8];
	buffer.extend_from_slice(data);

	let checksum = DoubleSha256Hasher::new(&buffer).checksum();
	buffer.extend_from_slice(&checksum);

	let mut encoded = encode(&buffer[1..]);
	encoded.insert(0, C32_ALPHABET[version as usize] as char);

	encoded''','''	let checksum = version_checksum(version as u8, data);
	let payload = [data, &checksum[..]].concat();

	let mut encoded = String::from(C32_ALPHABET[version as usize] as char);
	encoded.push_str(&encode(payload));
	encoded'''),('''	let (data_bytes, expected_checksum) =
		decoded_data_bytes.split_at(decoded_data_bytes.len() - 4);

	let mut buffer_to_check = vec![decoded_version_byte];
	buffer_to_check.extend_from_slice(data_bytes);

	let computed_checksum = DoubleSha256Hasher::new(buffer_to_check).checksum();

	if computed_checksum != expected_checksum {''','''	let data_length = decoded_data_bytes.len() - 4;
	let data_bytes = &decoded_data_bytes[..data_length];
	let expected_checksum = &decoded_data_bytes[data_length..];

	let computed_checksum =
		version_checksum(decoded_version_byte, data_bytes);

	if &computed_checksum[..] != expected_checksum {'''),('''/// C32 encode the given data with a version check
''','''fn version_checksum(version: u8, data: &[u8]) -> [u8; 4] {
	let mut buffer = Vec::with_capacity(1 + data.len());
	buffer.push(version);
	buffer.extend_from_slice(data);
	DoubleSha256Hasher::new(buffer).checksum()
}

/// C32 encode the given data with a version check
''')],0),
# 13 wif
(S+"crypto/wif.rs",[('''		let bytes_to_hash = bytes[..34].to_vec();
		bytes[34..].copy_from_slice(
			&DoubleSha256Hasher::new(bytes_to_hash).as_bytes()[..4],
		);
''','''		let checksum = DoubleSha256Hasher::new(&bytes[..34]).checksum();
		bytes[34..].copy_from_slice(&checksum);
'''),('''		let valid_network_byte =
			WIFPrefix::iter().any(|prefix| prefix as u8 == self.0[0]);
		let valid_private_key = PrivateKey::from_slice(&self.0[1..33]).is_ok();
		let valid_compression_byte = self.0[33] == 0x01;
		let valid_checksum = DoubleSha256Hasher::new(&self.0[..34]).as_ref()
			[..4] == self.0[34..];

		if valid_network_byte
			&& valid_private_key
			&& valid_compression_byte
			&& valid_checksum
		{
			Ok(())
		} else {
			Err(StacksError::InvalidData("WIF is invalid".into()))
		}''','''		let invalid = || StacksError::InvalidData("WIF is invalid".into());
		let (content, checksum) = self.0.split_at(34);

		if DoubleSha256Hasher::new(content).checksum() != checksum {
			return Err(invalid());
		}
		if content[33] != 0x01 || PrivateKey::from_slice(&content[1..33]).is_err()
		{
			return Err(invalid());
		}
		WIFPrefix::from_repr(content[0])
			.map(|_| ())
			.ok_or_else(invalid)'''),("strum::{Display, EnumIter, FromRepr, IntoEnumIterator}","strum::{Display, EnumIter, FromRepr}"),("	use super::*;","	use super::*;\n	use strum::IntoEnumIterator;")],0),
# 14 hashes
(S+"crypto/sha256.rs",[('''		Self(Sha256::digest(data).into())''','''		let mut hasher = Sha256::new();
		hasher.update(data);
		Self(hasher.finalize().into())'''),('''		Self(Sha256Hashing::hash(Sha256Hashing::hash(data).as_bytes()))''','''		let first = Sha256Hashing::hash(data);
		let second = Sha256Hashing::hash(&first.0);
		Self(second)''')],0),
# 15
(S+"crypto/hash160.rs",[('''		Self(Ripemd160::digest(Sha256Hasher::new(data)).into())''','''		let sha = Sha256Hasher::hash(data);
		let digest = Ripemd160::digest(sha.as_bytes());
		let mut bytes = [0; HASH160_LENGTH];
		bytes.copy_from_slice(&digest);
		Self(bytes)''')],0),
# 16
(S+"crypto/mod.rs",[('''		self.as_bytes()[0..CHECKSUM_LENGTH].try_into().unwrap()''','''		let mut checksum = [0; CHECKSUM_LENGTH];
		checksum.copy_from_slice(&self.as_bytes()[..CHECKSUM_LENGTH]);
		checksum'''),('''		Self::from_bytes(vec![0; LENGTH].as_slice()).unwrap()''','''		Self::from_bytes(&[0; LENGTH]).unwrap()'''),('''		Self::from_bytes(&hex::decode(data.as_ref().as_bytes())?)''','''		let bytes = hex::decode(data.as_ref())?;
		Self::from_bytes(&bytes)''')],0),
# 17 derivation
(S+"wallet.rs",[('''	let mut path = "m/".to_string();

	match kind {
		BitcoinAddressType::P2pkh => path.push_str("44'/"),
		BitcoinAddressType::P2wpkh => path.push_str("84'/"),
		BitcoinAddressType::P2tr => path.push_str("86'/"),
		_ => {
			return Err(StacksError::InvalidArguments(
				"Invalid Bitcoin addres type",
			))
		}
	};

	match network {
		BitcoinNetwork::Bitcoin => path.push_str("0'/"),
		_ => path.push_str("1'/"),
	}

	path.push_str(&format!("{}'/0/0", index));

	Ok(DerivationPath::from_str(&path)?)''','''	let purpose = match kind {
		BitcoinAddressType::P2pkh => 44,
		BitcoinAddressType::P2wpkh => 84,
		BitcoinAddressType::P2tr => 86,
		_ => {
			return Err(StacksError::InvalidArguments(
				"Invalid Bitcoin addres type",
			))
		}
	};

	let coin = if network == BitcoinNetwork::Bitcoin { 0 } else { 1 };

	Ok(format!("m/{purpose}'/{coin}'/{index}'/0/0").parse()?)'''),('''	Ok(DerivationPath::from_str(&format!(
		"m/44'/5757'/0'/0/{}",
		index
	))?)''','''	let path = format!("m/44'/5757'/0'/0/{index}");
	DerivationPath::from_str(&path).map_err(StacksError::from)''')],0),
# 18 credentials
(S+"wallet.rs",[('''		let private_key_p2pkh = derive_key(
			master_key,
			bitcoin_derivation_path(network, BitcoinAddressType::P2pkh, index)?,
		)
		.to_priv()
		.inner;

		let private_key_p2wpkh = derive_key(
			master_key,
			bitcoin_derivation_path(
				network,
				BitcoinAddressType::P2wpkh,
				index,
			)?,
		)
		.to_priv()
		.inner;

		let private_key_p2tr = derive_key(
			master_key,
			bitcoin_derivation_path(network, BitcoinAddressType::P2tr, index)?,
		)
		.to_priv()
		.inner;

		Ok(Self {
			network,
			private_key_p2pkh,
			private_key_p2wpkh,
			private_key_p2tr,
''','''		let derive = |kind| -> StacksResult<PrivateKey> {
			let path = bitcoin_derivation_path(network, kind, index)?;
			Ok(derive_key(master_key, path).private_key)
		};

		Ok(Self {
			network,
			private_key_p2pkh: derive(BitcoinAddressType::P2pkh)?,
			private_key_p2wpkh: derive(BitcoinAddressType::P2wpkh)?,
			private_key_p2tr: derive(BitcoinAddressType::P2tr)?,
'''),('''		let private_key =
			derive_key(master_key, stacks_derivation_path(index)?)
				.to_priv()
				.inner;

		Ok(Self {
			network,
			private_key,
		})''','''		stacks_derivation_path(index).map(|path| Self {
			network,
			private_key: derive_key(master_key, path).private_key,
		})''')],0),
# 19 networks
(S+"lib.rs",[('''		match self {
			BitcoinNetwork::Bitcoin => Network::Mainnet,
			_ => Network::Testnet,
		}''','''		if self == BitcoinNetwork::Bitcoin {
			Network::Mainnet
		} else {
			Network::Testnet
		}'''),('''		Ok(Self(Uint256::codec_deserialize(data)?))''','''		let number = Uint256::codec_deserialize(data)?;
		Ok(Self::new(number))''')],0),
]
