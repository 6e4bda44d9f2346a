PROPS = "P24"; SCOPE = "core"
G = "sbtc-cli/src/commands/generate.rs"; D = "sbtc-cli/src/commands/deposit.rs"; W = "stacks-core/src/wallet.rs"; F = "stacks-core/src/crypto/wif.rs"
R = "sbtc-cli/src/commands/withdraw.rs"
MUTS = [
 (D, [("PrivateKey::from_wif(&deposit.wif)?", "PrivateKey::from_wif(&deposit.wif)\n		.map_err(|e| anyhow::anyhow!(\"{}: {}\", deposit.wif, e))?")], 1),
 (D, [("PrivateKey::from_wif(&deposit.wif)?", "PrivateKey::from_wif(&deposit.wif)\n		.map_err(|e| anyhow::anyhow!(\"wif: {}\", e))?")], 0),
 (D, [("PrivateKey::from_wif(&deposit.wif)?", "PrivateKey::from_wif(&deposit.wif)\n		.unwrap_or_else(|e| panic!(\"{:?} {}\", deposit, e))")], 1),
 (D, [("PrivateKey::from_wif(&deposit.wif)?;\n", "PrivateKey::from_wif(&deposit.wif)?;\n	eprintln!(\"{}\", private_key);\n")], 1),
 (D, [("PrivateKey::from_wif(&deposit.wif)?;\n", "PrivateKey::from_wif(&deposit.wif)?;\n	eprintln!(\"{}\", private_key.to_wif());\n")], 1),
 (D, [("PrivateKey::from_wif(&deposit.wif)?;\n", "PrivateKey::from_wif(&deposit.wif)?;\n	eprintln!(\"{}\", private_key.network);\n")], 0),
 (D, [("PrivateKey::from_wif(&deposit.wif)?;\n", "PrivateKey::from_wif(&deposit.wif)?;\n	anyhow::ensure!(private_key.network == deposit.network, \"network of {:?} differs\", deposit);\n")], 1),
 (D, [("PrivateKey::from_wif(&deposit.wif)?;\n", "PrivateKey::from_wif(&deposit.wif)?;\n	anyhow::ensure!(private_key.network == deposit.network, \"network of {} differs\", deposit.recipient);\n")], 0),
 (W, [("		let mnemonic = Mnemonic::from_str(mnemonic.as_ref())?;\n", "		let mnemonic = Mnemonic::from_str(mnemonic.as_ref())\n			.map_err(|e| StacksError::InvalidData(format!(\"{}: {}\", mnemonic.as_ref(), e)))?;\n")], 1),
 (W, [("		let mnemonic = Mnemonic::from_str(mnemonic.as_ref())?;\n", "		let mnemonic = Mnemonic::from_str(mnemonic.as_ref())\n			.map_err(|e| StacksError::InvalidData(format!(\"mnemonic: {}\", e)))?;\n")], 0),
 (W, [("		let mnemonic = Mnemonic::from_str(mnemonic.as_ref())?;\n", "		let mnemonic = Mnemonic::from_str(mnemonic.as_ref()).expect(mnemonic.as_ref());\n")], 1),
 (W, [("		let mnemonic = Mnemonic::from_entropy(&entropy)?;\n", "		let mnemonic = Mnemonic::from_entropy(&entropy)?;\n		println!(\"{}\", mnemonic);\n")], 1),
 (W, [("	master_key.derive_priv(&Secp256k1::new(), &path).unwrap()", "	master_key.derive_priv(&Secp256k1::new(), &path).unwrap_or_else(|e| panic!(\"{}: {}\", master_key, e))")], 1),
 (W, [("	master_key.derive_priv(&Secp256k1::new(), &path).unwrap()", "	master_key.derive_priv(&Secp256k1::new(), &path).unwrap_or_else(|e| panic!(\"{}: {}\", path, e))")], 0),
 (F, [("Err(StacksError::InvalidData(\"WIF is invalid\".into()))", "Err(StacksError::InvalidData(format!(\"WIF is invalid: {}\", hex::encode(self.0))))")], 1),
 (F, [("Err(StacksError::InvalidData(\"WIF is invalid\".into()))", "Err(StacksError::InvalidData(format!(\"WIF is invalid: {:?}\", self.0)))")], 1),
 (F, [("Err(StacksError::InvalidData(\"WIF is invalid\".into()))", "Err(StacksError::InvalidData(format!(\"WIF is invalid: {}\", self.to_string())))")], 1),
 (F, [("Err(StacksError::InvalidData(\"WIF is invalid\".into()))", "Err(StacksError::InvalidData(format!(\"WIF is invalid: {}\", valid_checksum)))")], 0),
 (F, [("Self::from_bytes(base58::from(&value)?)?", "Self::from_bytes(base58::from(&value).map_err(|_| StacksError::InvalidData(value.clone()))?)?")], 1),
 (F, [("_ => Err(StacksError::InvalidData(\"Unknown network byte\".into())),", "_ => Err(StacksError::InvalidData(format!(\"Unknown network byte {}\", self.0[0]))),")], 0),
 (F, [("impl ToString for WIF {\n	fn to_string(&self) -> String {\n		base58::encode_slice(&self.0)\n	}", "impl std::fmt::Display for WIF {\n	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n		f.write_str(&base58::encode_slice(&self.0))\n	}")], 0),
 (F, [("impl ToString for WIF {\n	fn to_string(&self) -> String {\n		base58::encode_slice(&self.0)\n	}", "impl std::fmt::Display for WIF {\n	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n		write!(f, \"{}\", base58::encode_slice(&self.0))\n	}")], 0),
 (F, [("	/// Returns the network\n", "	/// Shows it\n	pub fn show(&self) {\n		println!(\"{}\", self.to_string());\n	}\n\n	/// Returns the network\n")], 1),
 (W, [("/// Bitcoin Credentials", "impl std::fmt::Display for Credentials {\n	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n		write!(f, \"{}\", hex::encode(self.private_key.secret_bytes()))\n	}\n}\n\n/// Bitcoin Credentials")], 1),
]
