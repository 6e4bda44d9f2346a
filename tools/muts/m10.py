W="stacks-core/src/wallet.rs"
MUTS=[
("P10",W,"m/44'/5757'/0'/0/{}","m/44'/5757'/0/0/{}",1),
("P10",W,"44'/\"),","48'/\"),",1),
("P10",W,"BitcoinNetwork::Bitcoin => path.push_str(\"0'/\"),","BitcoinNetwork::Bitcoin | BitcoinNetwork::Regtest => path.push_str(\"0'/\"),",1),
("P10",W,"&format!(\"{}'/0/0\", index)","&format!(\"{}'/0/0\", index % 1000000)",1),
("P10",W,"&format!(\"{}'/0/0\", index)","&format!(\"0'/0/{}\", index)",1),
("P10",W,"to_seed(\"\")","to_seed(\"stacks\")",1),
("P10",W,"let entropy: [u8; 32] = random();","let entropy: [u8; 16] = random();",1),
("P10",W,"let entropy: [u8; 32] = random();","let mut entropy: [u8; 32] = random(); entropy[0] = 7;",1),
("P10",W,"let entropy: [u8; 32] = random();","let seed: u64 = random(); let mut entropy = [0u8; 32]; entropy[..8].copy_from_slice(&seed.to_le_bytes());",1),
("P10",W,"self.private_key_p2tr.public_key(&Secp256k1::new())","self.private_key_p2wpkh.public_key(&Secp256k1::new())",1),
("P10",W,"self.public_key_p2tr().x_only_public_key().0","self.public_key_p2wpkh().x_only_public_key().0",1),
("P10",W,"WIF::new(self.network().into(), self.private_key_p2tr())","WIF::new(self.network().into(), self.private_key_p2pkh())",1),
("P10",W,"WIF::new(self.network().into(), self.private_key_p2tr())","WIF::new(Network::Mainnet, self.private_key_p2tr())",1),
("P10",W,"Network::Testnet => AddressVersion::TestnetSingleSig","Network::Testnet => AddressVersion::TestnetMultiSig",1),
("P10",W,"StacksAddress::p2pkh(version, &self.public_key())","StacksAddress::p2wpkh(version, &self.public_key())",1),
("P10",W,"Credentials::new(network, self.master_key, index)","Credentials::new(network, self.master_key, index.max(1))",1),
("P10",W,"BitcoinCredentials::new(network, self.master_key, index)","BitcoinCredentials::new(match network { BitcoinNetwork::Signet => BitcoinNetwork::Testnet, n => n }, self.master_key, index)",1),
("P10",W,"		WIF::new(network, self.master_key())","		WIF::new(network, self.credentials(network,0).unwrap().private_key())",1),
("P10",W,"self.private_key_p2wpkh\n","self.private_key_p2pkh\n",1),
("P10",W,"BitcoinAddressType::P2tr, index)?","BitcoinAddressType::P2wpkh, index)?",1),
("P10",W,"	master_key.derive_priv(&Secp256k1::new(), &path).unwrap()","	let p: Vec<_> = (&path).into_iter().take(4).cloned().collect(); master_key.derive_priv(&Secp256k1::new(), &p).unwrap()",1),
("P10",W,"Self::new(mnemonic.to_string())","Self::new(Mnemonic::from_entropy(&[1;32])?.to_string())",1),
# refactorings
("P10",W,"				.to_priv()\n				.inner;","				.private_key;",0),
("P10",W,"self.private_key_p2tr.public_key(&Secp256k1::new())","PublicKey::from_secret_key(&Secp256k1::new(), &self.private_key_p2tr)",0),
("P10",W,"let mut path = \"m/\".to_string();","let mut path = String::with_capacity(20); path += \"m\"; path.push('/');",0),
("P10",W,"	path.push_str(&format!(\"{}'/0/0\", index));\n\n	Ok(DerivationPath::from_str(&path)?)","	let full = format!(\"{path}{index}'/0/0\");\n	let p: DerivationPath = full.parse()?; Ok(p)",0),
("P10",W,"		Self::new(mnemonic.to_string())","		let phrase = format!(\"{}\", mnemonic); let w = Self::new(&phrase)?; Ok(w)",0),
("P10",W,"		let entropy: [u8; 32] = random();","		let mut entropy = [0u8; 32]; rand::RngCore::fill_bytes(&mut rand::thread_rng(), &mut entropy);",0),
("P10",W,"		let version = match self.network {\n			Network::Mainnet => AddressVersion::MainnetSingleSig,\n			Network::Testnet => AddressVersion::TestnetSingleSig,\n		};","		let version = if matches!(self.network, Network::Mainnet) { AddressVersion::MainnetSingleSig } else { AddressVersion::TestnetSingleSig };",0),
("P10",W,"self.public_key_p2tr().x_only_public_key().0","bdk::bitcoin::XOnlyPublicKey::from(self.public_key_p2tr())",0),
("P10",W,"	match network {\n		BitcoinNetwork::Bitcoin => path.push_str(\"0'/\"),\n		_ => path.push_str(\"1'/\"),\n	}","	let coin = if network == BitcoinNetwork::Bitcoin { 0 } else { 1 };\n	path.push_str(&format!(\"{}'/\", coin));",0),
]
