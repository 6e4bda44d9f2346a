C="stacks-core/src/codec.rs"
A="stacks-core/src/address.rs"
N="stacks-core/src/contract_name.rs"
U="stacks-core/src/utils.rs"
I="stacks-core/src/uint.rs"
R="sbtc-core/src/operations/op_return/withdrawal_request.rs"
F="sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"
D="sbtc-core/src/operations/op_return/deposit.rs"
M="sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"
O="sbtc-core/src/operations/mod.rs"
MUTS=[
("P11",C,"		dest.write_all(&self.to_sat().to_be_bytes())","		dest.write(&self.to_sat().to_be_bytes()).map(|_| ())",1),
("P11",C,"		dest.write_all(&self.to_sat().to_be_bytes())","		let bytes = self.to_sat().to_be_bytes();\n		dest.write_all(&bytes[..4])?;\n		dest.write_all(&bytes[4..])",0),
("P11",C,"		dest.write_all(&[id])?;\n		dest.write_all(&signature)","		let _ = dest.write_all(&[id]);\n		dest.write_all(&signature)",1),
("P11",C,"		dest.write_all(&[id])?;\n		dest.write_all(&signature)","		let mut out = vec![id];\n		out.extend(signature);\n		dest.write_all(&out)",0),
("P11",C,"		dest.write_all(&[id])?;\n		dest.write_all(&signature)","		dest.write_all(&[id])?;\n		let mut rest = &signature[..];\n		while !rest.is_empty() {\n			let n = dest.write(rest)?;\n			rest = &rest[n..];\n		}\n		Ok(())",1),
("P11",C,"		dest.write_all(self.as_bytes())","		dest.write_all(self.as_bytes()).ok();\n		Ok(())",1),
("P11",C,"		dest.write_all(self.as_bytes())","		dest.write_all(self.as_bytes())?;\n		dest.flush()",0),
("P11",A,"		dest.write_all(&[self.version() as u8])?;\n		dest.write_all(self.hash().as_ref())","		let mut bytes = Vec::with_capacity(21);\n		bytes.push(self.version() as u8);\n		bytes.extend_from_slice(self.hash().as_ref());\n		dest.write_all(&bytes)",0),
("P11",A,"		dest.write_all(&[self.version() as u8])?;","		assert_eq!(dest.write(&[self.version() as u8])?, 1);",1),
("P11",A,"		dest.write_all(&[self.version() as u8])?;","		dest.write_all(&[self.version() as u8]).unwrap();",1),
("P11",N,"		dest.write_all(self.as_bytes())","		write!(dest, \"{}\", self.as_ref() as &str)",0),
("P11",N,"		dest.write_all(self.as_bytes())","		dest.write(self.as_bytes())?;\n		Ok(())",1),
("P11",U,"				data.codec_serialize(dest)?;\n				contract_name","				data.codec_serialize(dest).ok();\n				contract_name",1),
("P11",U,"				dest.write_all(&[PrincipalTypeByte::Standard as u8])?;\n				data.codec_serialize(dest)","				dest.write_all(&[PrincipalTypeByte::Standard as u8])?;\n				data.serialize(dest).map_err(|_| io::Error::from(io::ErrorKind::Other))",0),
("P11",I,"let word_start = word_end - 8;","let word_start = word_end - 4;",1),
("P11",I,".for_each(|(i, byte)| buffer[i] = byte);",".for_each(|(i, byte)| buffer[i / 8 * 8 + 7 - i % 8] = byte);",1),
("P11",I,"""		let mut buffer = vec![0; N * 8];

		self.0
			.iter()
			.flat_map(|part| part.to_le_bytes())
			.enumerate()
			.for_each(|(i, byte)| buffer[i] = byte);

		buffer""","		self.0.iter().flat_map(|part| part.to_le_bytes()).collect()",0),
("P11",I,"""		let mut buffer = vec![0; N * 8];

		self.0
			.iter()
			.flat_map(|part| part.to_le_bytes())
			.enumerate()
			.for_each(|(i, byte)| buffer[i] = byte);

		buffer""","		let mut buffer = Vec::with_capacity(N * 8);\n		for limb in &self.0 {\n			buffer.extend_from_slice(&limb.to_le_bytes());\n		}\n		buffer",0),
("P11",I,"""		let mut ret = vec![0; N * 8];

		for i in 0..N {
			let word_end = N * 8 - (i * 8);
			let word_start = word_end - 8;

			ret[word_start..word_end].copy_from_slice(&self.0[i].to_be_bytes());
		}

		ret""","		let mut ret = self.to_le_bytes();\n		ret.reverse();\n		ret",0),
("P11",I,"""		let mut ret = vec![0; N * 8];

		for i in 0..N {
			let word_end = N * 8 - (i * 8);
			let word_start = word_end - 8;

			ret[word_start..word_end].copy_from_slice(&self.0[i].to_be_bytes());
		}

		ret""","		self.0.iter().rev().flat_map(|limb| limb.to_be_bytes()).collect()",0),
("P11",R,"		dest.write_all(&magic_bytes(self.network))?;","		dest.write_all(&magic_bytes(self.network)).ok();",1),
("P11",D,"		dest.write_all(&magic_bytes(self.network))?;\n		dest.write_all(&[Opcode::Deposit as u8])?;","		let header = magic_bytes(self.network);\n		dest.write_all(&[header[0], header[1], Opcode::Deposit as u8])?;",0),
("P11",M,"		self.amount.codec_serialize(dest)?;\n","		self.amount.codec_serialize(dest).unwrap_or(());\n",1),
]
