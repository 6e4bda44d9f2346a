W="stacks-core/src/crypto/wif.rs"
MUTS=[
("P09",W,"			&& valid_compression_byte\n","			&& (valid_compression_byte || self.0[33] == 0)\n",1),
("P09",W,"[..4] == self.0[34..];","[..3] == self.0[34..37];",1),
("P09",W,"DoubleSha256Hasher::new(&self.0[..34]).as_ref()","DoubleSha256Hasher::new(&self.0[..33]).as_ref()",1),
("P09",W,"			WIFPrefix::iter().any(|prefix| prefix as u8 == self.0[0]);","			WIFPrefix::from_repr(self.0[0]).is_some();",0),
("P09",W,"			WIFPrefix::iter().any(|prefix| prefix as u8 == self.0[0]);","			self.network().is_ok();",0),
("P09",W,"			WIFPrefix::iter().any(|prefix| prefix as u8 == self.0[0]);","			self.0[0] >= 128;",1),
("P09",W,"		wif.validate()?;\n\n		Ok(wif)\n	}\n\n	fn","		let _ = wif.validate();\n\n		Ok(wif)\n	}\n\n	fn",1),
("P09",W,"Some(WIFPrefix::Testnet) => Ok(Network::Testnet)","Some(WIFPrefix::Testnet) => Ok(Network::Mainnet)",1),
("P09",W,"""		let mut bytes = [0u8; WIF_LENGTH];
		bytes[0] = WIFPrefix::from(network) as u8;
		bytes[1..33].copy_from_slice(&private_key.secret_bytes());
		bytes[33] = 0x01;

		let bytes_to_hash = bytes[..34].to_vec();
		bytes[34..].copy_from_slice(
			&DoubleSha256Hasher::new(bytes_to_hash).as_bytes()[..4],
		);

		Self(bytes)""","""		let mut payload = vec![WIFPrefix::from(network) as u8];
		payload.extend_from_slice(&private_key.secret_bytes());
		payload.push(0x01);
		let sum = DoubleSha256Hasher::new(&payload).checksum();
		payload.extend_from_slice(&sum);
		Self(payload.try_into().unwrap())""",0),
("P09",W,"""		let valid_checksum = DoubleSha256Hasher::new(&self.0[..34]).as_ref()
			[..4] == self.0[34..];""","""		let digest = DoubleSha256Hasher::new(&self.0[..34]);
		let valid_checksum = (0..4).all(|i| digest.as_ref()[i] == self.0[34 + i]);""",0),
("P09",W,"""		let valid_checksum = DoubleSha256Hasher::new(&self.0[..34]).as_ref()
			[..4] == self.0[34..];""","""		let digest = DoubleSha256Hasher::new(&self.0[..34]);
		let valid_checksum = digest.as_ref().iter().zip(self.0[34..].iter()).all(|(a, b)| a == b);""",0),
("P09",W,"""		let valid_checksum = DoubleSha256Hasher::new(&self.0[..34]).as_ref()
			[..4] == self.0[34..];""","""		let valid_checksum = DoubleSha256Hasher::new(&self.0[..34]).checksum() == self.0[34..38];""",0),
("P09",W,"let valid_private_key = PrivateKey::from_slice(&self.0[1..33]).is_ok();","let valid_private_key = self.private_key().is_ok();",0),
("P09",W,"""		if valid_network_byte
			&& valid_private_key
			&& valid_compression_byte
			&& valid_checksum
		{
			Ok(())
		} else {
			Err(StacksError::InvalidData("WIF is invalid".into()))
		}""","""		if !valid_network_byte || !valid_private_key { return Err(StacksError::InvalidData("WIF is invalid".into())); }
		let checks = [valid_compression_byte, valid_checksum];
		if checks.iter().all(|x| *x) {
			Ok(())
		} else {
			Err(StacksError::InvalidData("WIF is invalid".into()))
		}""",0),
]
