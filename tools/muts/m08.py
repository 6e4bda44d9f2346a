N="stacks-core/src/contract_name.rs"
MUTS=[
("P08",N,"CONTRACT_MAX_NAME_LENGTH - 1\n","CONTRACT_MAX_NAME_LENGTH\n",1),
("P08",N,"\"^{}$|^__transient$\"","\"^{}|^__transient$\"",1),
("P08",N,"\"^{}$|^__transient$\"","\"{}$|^__transient$\"",1),
("P08",N,"[-_]","[-_.]",1),
("P08",N,"CONTRACT_NAME_REGEX.is_match(contract_name)","CONTRACT_NAME_REGEX.is_match(contract_name.trim())",1),
("P08",N,"Ok(Self(contract_name.to_string()))","Ok(Self(contract_name.to_lowercase()))",1),
("P08",N,"		Self::new(&contract_name_string)\n			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))","		Ok(Self(contract_name_string))",1),
("P08",N,"			&& contract_name.len() > CONTRACT_MAX_NAME_LENGTH","			|| contract_name.len() > CONTRACT_MAX_NAME_LENGTH",0),
("P08",N,"			&& contract_name.len() > CONTRACT_MAX_NAME_LENGTH","			|| contract_name.len() >= CONTRACT_MAX_NAME_LENGTH",1),
("P08",N,"ContractName::new(value)","{ if value.starts_with(\"__\") { return Ok(ContractName(value.into())) } ContractName::new(value) }",1),
("P08",N,"""			Ok(Self(contract_name.to_string()))
		} else {""","""			Ok(Self::from_valid(contract_name))
		} else {""",2),
("P08",N,"""impl ContractName {
""","""impl ContractName {
	fn from_valid(s: &str) -> Self { Self(String::from(s)) }
	/// x
	pub fn v(s: &str) -> Option<Self> { if CONTRACT_NAME_REGEX.is_match(s) { Some(Self::from_valid(s)) } else { None } }
""",0),
("P08",N,"r#\"([a-zA-Z](([a-zA-Z0-9]|[-_])){{{},{}}})\"#","r#\"([[:alpha:]][a-zA-Z0-9_-]{{{},{}}})\"#",0),
("P08 P02 P32",N,"Self::new(&contract_name_string)","ContractName::try_from(contract_name_string.as_str())",0),
("P08",N,"#[derive(PartialEq, Eq, Debug, Clone)]","#[derive(PartialEq, Eq, Debug, Clone, Default)]",1),
]
