L="stacks-core/src/lib.rs"
A="stacks-core/src/address.rs"
O="sbtc-core/src/operations/mod.rs"
MUTS=[
("P14",L,"			BitcoinNetwork::Bitcoin => Network::Mainnet,","			BitcoinNetwork::Bitcoin | BitcoinNetwork::Signet => Network::Mainnet,",1),
("P14",L,"Network::Testnet => BitcoinNetwork::Testnet","Network::Testnet => BitcoinNetwork::Regtest",1),
("P14",L,"#[strum(ascii_case_insensitive)]\n","",1),
("P14",L,"#[strum(serialize_all = \"lowercase\")]\n","",1),
("P14",L,"		Self::try_from(value.as_str())","		if value == \"main\" { return Ok(Self::Mainnet) } Self::try_from(value.as_str())",1),
("P14",L,"		Self::try_from(value.as_str())","		Self::try_from(value.trim())",1),
("P14",A,"	TestnetSingleSig = 26,","	TestnetSingleSig = 25,",1),
("P14",A,"		AddressVersion::from_repr(value)","		AddressVersion::from_repr(value & 0x1f)",1),
("P14",L,"#[serde(try_from = \"String\", into = \"String\")]\n","",1),
("P14",O,"[b'i', b'd']","[b'I', b'd']",1),
("P14",L,"""		match self {
			BitcoinNetwork::Bitcoin => Network::Mainnet,
			_ => Network::Testnet,
		}""","""		if self == BitcoinNetwork::Bitcoin { Network::Mainnet } else { Network::Testnet }""",0),
("P14",A,"""		AddressVersion::from_repr(value)
			.ok_or(StacksError::InvalidAddressVersion(value))""","""		match value { 22 => Ok(Self::MainnetSingleSig), 20 => Ok(Self::MainnetMultiSig), 26 => Ok(Self::TestnetSingleSig), 21 => Ok(Self::TestnetMultiSig), v => Err(StacksError::InvalidAddressVersion(v)) }""",0),
("P14",A,"""		AddressVersion::from_repr(value)
			.ok_or(StacksError::InvalidAddressVersion(value))""","""		use strum::IntoEnumIterator; Self::iter().find(|v| *v as u8 == value).ok_or(StacksError::InvalidAddressVersion(value))""",0),
("P14",L,"		Self::try_from(value.as_str())","		match value.to_ascii_lowercase().as_str() { \"mainnet\" => Ok(Self::Mainnet), \"testnet\" => Ok(Self::Testnet), _ => Err(strum::ParseError::VariantNotFound) }",0),
("P14",L,"		Self::try_from(value.as_str())","		value.parse()",0),
("P14",L,"		self.to_string()\n","		match self { Self::Mainnet => \"mainnet\", Self::Testnet => \"testnet\" }.to_owned()\n",0),
]
